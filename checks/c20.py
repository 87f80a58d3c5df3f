"""years are rolled up into totals without loss, mixing or carry-over"""
import numpy as np

from lib import e2e, roll

RULE = ("a case is one simulated year with its annual counters (made up or real); multi-year totals before and after closing it "
        "are compared with an independent bookkeeping; non-trivial cases have losses in at least two areas and both causes")
REQUIRE = {"years": 60, "tiers5": 3, "tiers1": 3, "hourly": 1, "daily": 5, "natural_loss": 5}


def expected(B):
    r = dict(B.t)
    r.update(B.h)
    r["XNEWA"], r["XNEWP"] = B.xa, B.xp
    return r


def observe(job, out, keys, what):
    o = roll.run(job, out)
    if o is None:
        return None
    case, m, B, years, T, txt = o
    C = roll.Books(m.A, m.nf, m.base, case["mc"]["MAXE"])
    last = None
    for n, y in enumerate(years):
        d = y["annual"]
        x = np.asarray(d["LOLGHA"])[:, : m.nf] + np.asarray(d["LOLTHA"])[:, : m.nf]
        nt = (np.asarray(d["LOLGHA"]).any() and np.asarray(d["LOLTHA"]).any() and (x.sum(axis=1) > 0).sum() > 1)
        out.case((job["s"], n) if nt else None)
        if not job.get("inject", True):
            out.count("natural_loss", int(x.sum() > 0))
        C.add(d)
        e = expected(C)
        for k in keys:
            v0, v = np.asarray(y["tot0"][k], float), np.asarray(y["tot"][k], float)
            if last is None:
                out.check(not v0.any(), what + "-start", "%s is not zero before the end of the first year: %s" % (k, v0.ravel()[:10]))
            else:
                out.check((v0 == last[k]).all(), what + "-between", "%s changed between the ends of years %d and %d" % (k, n, n + 1))
            if v.ndim and v.shape[-1] > m.nf and k[:3] in ("SOL", "SGN"):
                out.check(not v[..., m.nf:].any(), what + "-unused", "%s has values in tiers not in use" % k)
                v = v[..., : m.nf]
            roll.cmp(out, what + "-" + k, "%s after year %d of %d" % (k, n + 1, len(years)), v, e[k])
        last = {k: np.asarray(y["tot"][k], float) for k in keys}
        if what == "totals":
            for k, v in y["after"].items():
                out.check(not np.asarray(v).any(), "not-reset", "%s is not zero after year %d" % (k, n + 1))
        if out.nviol > 3:
            return None
    return case, m, C, years, T, txt


def run(job, out):
    o = observe(job, out, [k for k in e2e.TOTALS if k not in e2e.HIST], "totals")
    if o:
        out.sample(areas=o[1].A, tiers=o[1].nf, years=len(o[3]), SOLSHA=o[2].t["SOLSHA"])


def jobs(tier, rng):
    q = tier == "quick"
    r = roll.jobs_of(rng, 24 if q else 240, 2 if q else 16)
    r += roll.jobs_of(rng, 4 if q else 30, 0, inject=False, stress=0.95, mc=dict(CVT=1e-9, FIN=4))
    r += roll.jobs_of(rng, 1 if q else 6, 0, A=1, mc=dict(CVT=1e-9, FIN=110))
    return r
