"""installed capacity and reserve of the summary are right"""
import os

import numpy as np

from lib import e2e, gen, jobs as J, prep, roll
from lib.common import Stop
from lib.shadow import Model

RULE = ("a case is one area of one system: its peak, installed capacity and reserve as prepared and as printed in the summary (also the row of "
        "the pool) are compared with the input; non-trivial areas have contracts on their peak day, shared units or a "
        "peak in a later season")
REQUIRE = {"prepared": 60, "areas": 200, "printed": 60, "pool": 15, "seasons4": 20, "contract_on_peak": 60, "shared": 60, "first_day_of_season": 10,
           "end_of_year": 20, "begins_on_peak": 20, "ends_on_peak": 20, "large": 5}


def make(rng, mc=None):
    n = int(rng.integers(1, 6)) if rng.random() < 0.85 else int(rng.integers(8, 15))
    case = gen.random_case(rng, n_area=n, units_per_area=int(rng.integers(2, 6)), mc=mc, maint="none",
                           stress=float(rng.uniform(0.4, 1.1)))
    gen.tweak(case, rng, ["season", "weeks"] + [t for t in ("fractions", "owners", "contracts", "lfu", "decimals") if rng.random() < 0.7])
    sh = np.array(case["shapes"], float)
    wk = case["mc"]["WK"]
    for a in range(sh.shape[0]):
        r = rng.random()
        d = int(rng.integers(365)) if r < 0.6 else int(7 * wk[int(rng.integers(3))] + rng.integers(-1, 2))
        if rng.random() < 0.2:
            d = int(rng.choice([0, 1, 363, 364]))
        d = min(max(d, 0), 364)
        sh[a, 24 * d + int(rng.integers(24))] = np.ceil(sh[a].max() * float(rng.choice([1.05, 1.3])))
    case["shapes"] = sh.tolist() if isinstance(case["shapes"], list) else sh
    for c in case["fc"]:
        if rng.random() < 0.5:  # over the peak day of one of its areas, or just beside it
            d = int(sh[c["a" if rng.random() < 0.5 else "b"]].argmax()) // 24 + 1
            k = rng.random()
            if k < 0.3:
                c["beg"], c["end"] = [(d, d), (d, 365), (1, d)][int(rng.integers(3))]
            elif k < 0.5:
                c["beg"], c["end"] = max(1, d - int(rng.integers(3))), min(365, d + int(rng.integers(3)))
            elif k < 0.75 and d > 1:
                c["beg"], c["end"] = 1, d - 1
            elif d < 365:
                c["beg"], c["end"] = d + 1, 365
    return case


def sure(m):
    s = np.sort(m.dpeak, axis=1)
    return (s[:, -1] - s[:, -2]) > 1e-6


def note(out, m, case, key):
    out.count("large", int(m.A >= 8))
    for i in range(m.A):
        d = m.maxday[i]
        on = [x for x in case["fc"] if i in (x["a"], x["b"]) and x["beg"] - 1 <= d <= x["end"] - 1]
        shared = bool(((m.own[i] > 0) & (m.own[i] < 1)).any())
        s = int(m.season[d * 24])
        out.count("contract_on_peak", int(bool(on)))
        out.count("shared", int(shared))
        out.count("seasons4", int(s == 3))
        out.count("end_of_year", int(d in (0, 364)))
        out.count("begins_on_peak", int(any(x["beg"] - 1 == d for x in on)))
        out.count("ends_on_peak", int(any(x["end"] - 1 == d for x in on)))
        out.count("first_day_of_season", int(d * 24 in [w * 168 for w in case["mc"]["WK"]]))
        out.count("areas")
        out.case((key, i) if on or shared or s else None)


def prepared(job, out):
    rng = J.rng_of(job)
    for i in range(job["n"]):
        case = make(rng)
        if os.path.exists("output.txt"):
            os.remove("output.txt")
        d = prep.prepare(case)
        m = Model(case)
        ok = sure(m)
        S = np.asarray(d["SUSTAT"], float)
        out.count("prepared")
        note(out, m, case, (job["s"], i))
        for a in range(m.A):
            out.check(abs(S[a, 0] - m.peak[a]) < 1e-6, "peak", "area %d has the peak %s, its input is %s" % (a, S[a, 0], m.peak[a]))
            if ok[a]:
                e = m.installed(a)
                out.count("joint_negative", int(e < 0))
                out.check(abs(S[a, 1] - e) < 1e-6 * max(1, abs(e)), "installed", "area %d (peak on day %d, season %d) has %s MW installed, expected %s" % (
                    a, m.maxday[a] + 1, m.season[m.maxday[a] * 24] + 1, S[a, 1], e), contracts=case["fc"], weeks=case["mc"]["WK"])
        if i == 0:
            out.sample(case=J.describe(case), peak_days=m.maxday + 1, installed=[m.installed(a) for a in range(m.A)])
        if out.nviol:
            return


def near(tok, v):
    """printed with rounding of a value that may be off by the last bits"""
    dec = roll.decimals(tok)
    return abs(float(tok) - v) <= 0.5 * 10 ** -dec + 1e-6 * max(1, abs(v))


def judge(out, txt, m, case, hourly, what):
    f = roll.split_final(txt)
    if not out.check(f, "no-report", "%s: no final report" % what):
        return
    rows = roll.summary_rows(f[-1][1], None, hourly)
    if not out.check(len(rows) == m.A + 1, "rows", "%s: the summary has %d rows for %d areas and the pool" % (what, len(rows), m.A)):
        return
    ok = sure(m)
    inst = [m.installed(a) for a in range(m.A)]
    for a, (nm, t) in enumerate(rows):
        if a < m.A:
            p, c = m.peak[a], inst[a]
            out.check(nm == case["areas"][a]["name"], "name", "%s: row %d of the summary is called %r" % (what, a + 1, nm))
        else:
            p, c = m.peak.sum(), sum(inst)
        if not (ok.all() if a == m.A else ok[a]):
            continue
        out.count("printed" if a < m.A else "pool")
        e = (c - p) / p * 100 if p > 0 else 0.0
        for k, v, nme in zip(t[:3], (p, c, e), ("peak", "installed", "reserve")):
            out.check(near(k, v), "printed-" + nme, "%s: the summary row %r gives the %s as %s, expected %.2f" % (what, nm, nme, k, v))


def whole(job, out):
    rng = J.rng_of(job)
    case = make(rng, job["mc"])
    m = Model(case)
    try:
        e2e.simulate(case, draws=False, tm2=False, annual=False, bound=J.bound_of(case))
    except Stop:
        out.violation("endless", "the run does not end")
        return
    note(out, m, case, job["s"])
    judge(out, open("output.txt").read(), m, case, case["mc"]["STEP"] == 1, "run")
    out.count("runs")


def run(job, out):
    J.dispatch(job, out, dict(prep=prepared, run=whole))


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="prep", s=s, n=15 if q else 80) for s in J.seeds(rng, 8 if q else 32)]
    r += [dict(k="run", s=s, mc=dict(STEP=1 if i % 8 == 7 else 24, FIN=1 if i % 8 == 7 else 1 + i % 3, FREQ=24, IN=1 + i % 4)) for i, s in enumerate(J.seeds(rng, 32 if q else 160))]
    return r
