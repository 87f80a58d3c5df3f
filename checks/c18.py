"""hourly statistics count each loss once, for the right areas and cause"""
import numpy as np

from lib import jobs as J, rec
from lib.shadow import Tally

RULE = ("a case is one recorded hourly loss; in whole runs the annual counters at the end of every year are compared with "
        "an independent tally of the losses recorded, and long random sequences of losses are recorded directly and "
        "compared after every one; non-trivial cases have distinct margins")
REQUIRE = {"direct": 3000, "loss": 1500, "years": 8, "direct_T": 500, "direct_G": 500, "direct_many": 500}
TAGS = {"hrstat"}
FN, C = "hrstat", "H"


def direct(job, out, fn=FN, c=C):
    rng = J.rng_of(job)
    for _ in range(job["seq"]):
        A = int(rng.integers(1, 14)) if rng.random() < 0.8 else int(rng.integers(14, 45))
        scale = 1 if rng.random() < 0.8 else int(rng.integers(2, 2000))
        nf = 5
        names = [q + g + c + l for q in ("LOL", "MGN") for g in "GT" for l in "AP"]
        arr = {k: np.zeros((A, nf) if k[-1] == "A" else nf, dtype=int) for k in names}
        flg = np.zeros(A, int)
        t = Tally(A, nf)
        zero = np.zeros(nf, bool)
        for _ in range(job["n"]):
            M = rng.integers(-600, 700, A) + int(rng.integers(-300, 300))
            r = rng.random()
            if r < 0.2:
                M[rng.random(A) < 0.5] = 0
            elif r < 0.3:
                M = -np.abs(M)
            elif r < 0.4:
                M = np.abs(M)
                M[int(rng.integers(A))] = -1
            if not (M < 0).any():
                M[int(rng.integers(A))] = -int(rng.integers(1, 9))
            M = M * scale
            k = int(rng.integers(nf))
            if M.sum() == 0:
                zero[k] = True
            m0 = M.copy()
            rec.call(fn, NST=k, MARGIN=M, LSFLG=flg, **arr)
            t.add(c, k, m0)
            out.count("direct")
            out.count("direct_" + ("T" if m0.sum() > 0 else "G" if m0.sum() < 0 else "0"))
            out.count("direct_many", int((m0 < 0).sum() > 1 and (m0 >= 0).any()))
            out.case((k, m0.tolist()))
            out.check((M == m0).all(), "margin-changed", "recording a loss changes the margins")
            bad = False
            for q in ("LOL", "MGN"):
                for l, ref in (("A", t.a), ("P", t.p)):
                    g = {s: arr[q + s + c + l] for s in "GT"}
                    e = {s: ref[q + s + c + l] for s in "GT"}
                    if (g["G"] + g["T"] != e["G"] + e["T"]).any():
                        bad = True
                        out.violation(fn + "-total", "after margins %s of tier %d: %s by %s is %s, expected %s" % (
                            m0.tolist(), k + 1, q, {"A": "area", "P": "pool"}[l], (g["G"] + g["T"]).tolist(), (e["G"] + e["T"]).tolist()))
                    for s in "GT":
                        w = (g[s] != e[s])[..., ~zero]
                        if w.any():
                            bad = True
                            out.violation(fn + "-cause", "after margins %s of tier %d: %s by %s attributed to %s is %s, expected %s" % (
                                m0.tolist(), k + 1, q, {"A": "area", "P": "pool"}[l], s, g[s].tolist(), e[s].tolist()))
            if bad:
                return
        out.sample(areas=A, last=m0)


def run(job, out):
    if job["k"] == "direct":
        return direct(job, out)
    sh, T, c = J.shadow_run(job, out, TAGS)
    out.sample(case=J.describe(c))


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="direct", s=s, seq=20 if q else 300, n=60) for s in J.seeds(rng, 4 if q else 12)]
    kw = dict(mc=dict(CVT=1e-9))
    r += J.hourly(rng, 2 if q else 12, [], years=1, n_area=3, units_per_area=3, stress=0.95, lfu=True)
    r += J.hourly(rng, 2 if q else 12, ["linestates"], years=1, n_area=2, units_per_area=4, stress=0.9, lfu=False)
    r += J.hourly(rng, 1 if q else 6, ["lfu", "rollpeaks"], years=1, n_area=2, units_per_area=3, stress=0.97)
    r += J.daily(rng, 4 if q else 30, ["linestates"], years=3 if q else 10, stress=0.9, n_area=4, units_per_area=4, **kw)
    r += J.daily(rng, 1 if q else 8, ["linestates"], years=2 if q else 6, stress=0.95, n_area=9, units_per_area=4, **kw)
    r += J.daily(rng, 1 if q else 8, ["linestates", "big"], years=2 if q else 6, stress=1.0, n_area=3, units_per_area=4, **kw)
    return r
