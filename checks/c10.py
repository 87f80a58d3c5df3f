"""daily, weekly and pool peaks are the true maxima"""
import numpy as np

from lib import gen, jobs as J, prep, rec
from lib.shadow import Model

RULE = ("a case is one area and day, week or year whose peak is compared with the maximum taken hour by hour; "
        "non-trivial with contracts in force, ties, flat and negative loads and peaks in the first and last hours")
REQUIRE = {"direct": 60, "prepared": 20, "area_days": 20000, "ties": 200, "hours": 2000}


def direct(job, out):
    rng = J.rng_of(job)
    dpeak, wpeakf, plhr, xporta, xports = (rec.fn(x) for x in ("dpeak", "wpeakf", "plhr", "xporta", "xports"))
    for it in range(job["n"]):
        A = int(rng.integers(1, 10))
        k = rng.random()
        H = rng.integers(0, 12, (A, 8760)).astype(float)  # many ties
        if k < 0.3:
            H = np.array([gen.load_shape(rng) for _ in range(A)]).astype(float) / 7
        elif k < 0.5:
            H[:] = rng.integers(-3, 100, (A, 1))  # flat, also below zero
        elif k < 0.6:
            H -= 40
        for _ in range(6):  # the largest at the borders of days, weeks and the year
            a, h = int(rng.integers(A)), int(rng.choice([0, 8759, 8736, 8735, 23, 24, 167, 168, 8759 - 24]))
            H[a, h] += 500
        H0 = H.copy()
        mh, dy, md = dpeak(H, hour_within_day=24)
        W = wpeakf(np.asarray(dy, float))
        P = plhr(H)
        out.check((H == H0).all(), "input-changed", "searching peaks changes the loads")
        D = H0.reshape(A, 365, 24)
        out.count("ties", int(((D == D.max(axis=2, keepdims=True)).sum(axis=2) > 1).sum()))
        E = D.max(axis=2)
        eh = D.argmax(axis=2) + 24 * np.arange(365)
        ew = np.array([[E[a, 7 * w: (7 * w + 7 if w < 51 else 365)].max() for w in range(52)] for a in range(A)])
        ep = H0.sum(axis=0).reshape(365, 24).argmax(axis=1) + 24 * np.arange(365)
        for nm, g, e in (("daily-peak", dy, E), ("daily-peak-hour", mh, eh), ("peak-day", md, E.argmax(axis=1)),
                         ("weekly-peak", W, ew), ("pool-peak", P, ep)):
            g = np.asarray(g)
            if g.shape != e.shape or (g != e).any():
                i = tuple(int(x[0]) for x in np.nonzero(g != e)) if g.shape == e.shape else ()
                out.violation(nm, "%s at %s is %s, the loads give %s" % (nm, i, g[i] if i else g.shape, e[i] if i else e.shape))
        out.count("area_days", A * 365)
        # contracts are added for the search and taken away again
        n = int(rng.integers(0, 5)) if A > 1 else 0
        JENT = -np.ones((A, A), int)
        IN = np.zeros((60, 365))
        for c in range(n):
            a, b = (int(x) for x in rng.choice(A, 2, replace=False))
            if JENT[a, b] >= 0:
                continue
            JENT[a, b] = JENT.max() + 1
            d1, d2 = np.sort(rng.integers(0, 366, 2))
            IN[JENT[a, b], d1:d2] += int(rng.integers(1, 50))
        E = H0.copy()
        for a in range(A):
            for b in range(A):
                if JENT[a, b] >= 0:
                    x = np.repeat(IN[JENT[a, b]], 24)
                    E[a] += x
                    E[b] -= x
        H = H0.copy()
        J0, I0 = JENT.copy(), IN.copy()
        xporta(JENT, IN, H)
        if np.abs(H - E).max() > 1e-9:
            out.violation("with-contracts", "loads with contracts differ by %g" % np.abs(H - E).max(), contracts=n)
        xports(JENT, IN, H)
        out.check(np.abs(H - H0).max() < 1e-9, "without-contracts", "loads after the search differ by %g" % np.abs(H - H0).max())
        out.check((JENT == J0).all() and (IN == I0).all(), "input-changed", "adding contracts changes them")
        out.count("direct")
        out.case((A, n, float(H0.sum())), k=A * 365)


def run(job, out):
    if job["k"] == "direct":
        return direct(job, out)
    if job["k"] == "prep":
        return prep.job(job, out, ["peaks", "loads"], J)
    # the daily mode evaluates the hour of the pool peak
    sh, T, c = J.shadow_run(job, out, {"hours", "load"})
    out.sample(case=J.describe(c))


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="direct", s=s, n=25 if q else 600) for s in J.seeds(rng, 4 if q else 16)]
    r += [dict(k="prep", s=s, n=8 if q else 80, tw=["contracts"]) for s in J.seeds(rng, 4 if q else 16)]
    r += [dict(k="prep", s=s, n=4 if q else 40, tw=["contracts", "rollpeaks"]) for s in J.seeds(rng, 2 if q else 8)]
    r += J.daily(rng, 2 if q else 8, ["contracts", "rollpeaks"], years=2 if q else 6, n_area=3, units_per_area=4, stress=0.9, mc=dict(CVT=1e-9))
    r += J.daily(rng, 3 if q else 16, ["contracts"], years=2 if q else 6, n_area=3, units_per_area=4, stress=0.9, lfu=False, mc=dict(CVT=1e-9))
    return r
