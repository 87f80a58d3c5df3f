"""capacity is neither created nor lost when it is assigned to areas"""
import numpy as np

from lib import jobs as J, prep, rec

RULE = ("a case is one assignment of the capacities of all units to areas, recomputed unit by unit, in whole runs and "
        "with random owners and locations; non-trivial when units have several owners or owners elsewhere")
REQUIRE = {"networks_joint": 300, "direct": 300, "units": 100, "transm": 300}
TAGS = {"capacity"}


def direct(job, out):
    rng = J.rng_of(job)
    f = rec.fn("sumcap")
    for it in range(job["n"]):
        A, U = int(rng.integers(1, 12)), int(rng.integers(1, 60))
        if rng.random() < 0.1:
            A, U = int(rng.integers(1, 41)), int(rng.integers(60, 600))
        av = np.where(rng.random(U) < 0.3, 0, rng.integers(0, 1200, U) * rng.choice([1, 0.5, 0.37]))
        con = rng.integers(0, A, U)
        own = np.zeros((A, U))
        own[con, np.arange(U)] = 1
        full = rng.random() < 0.7
        for u in np.nonzero(rng.random(U) < 0.4)[0]:
            x = rng.dirichlet(np.ones(A)) if rng.random() < 0.7 else np.eye(A)[int(rng.integers(A))]
            own[:, u] = x if full else x * rng.uniform(0, 1.2)
        a = [av.copy(), own.copy(), con.copy()]
        r = f(*a)
        so, sc, tj = (np.asarray(x, float).ravel() for x in r[1:4])
        eo = np.array([sum(own[i, u] * av[u] for u in range(U)) for i in range(A)])
        ec = np.array([sum(av[u] for u in range(U) if con[u] == i) for i in range(A)])
        for nm, g, e in (("owned", so, eo), ("located", sc, ec), ("owed", tj, ec - eo)):
            if g.shape != e.shape or np.abs(g - e).max() > 1e-6:
                out.violation("capacity-" + nm, "%s capacity %s, units give %s" % (nm, g.tolist(), e.tolist()), avail=av, own=own, area=con)
                return
        if full:
            out.check(abs(tj.sum()) < 1e-6, "owed-sum", "owed capacity adds up to %g" % tj.sum())
        out.check(abs(sc.sum() - av.sum()) < 1e-6, "located-sum", "%g MW located of %g MW available" % (sc.sum(), av.sum()))
        out.check(all((x == y).all() for x, y in zip(a, (av, own, con))), "input-changed", "summing capacities changes the unit data")
        out.count("direct")
        out.case((A, U, float(av.sum()), full))


def run(job, out):
    if job["k"] == "direct":
        return direct(job, out)
    if job["k"] == "prep":
        return prep.job(job, out, ["units"], J)
    sh, T, c = J.shadow_run(job, out, TAGS | {"decision"})
    out.sample(case=J.describe(c), owners=c["od"])


def jobs(tier, rng):
    q = tier == "quick"
    kw = dict(lfu=False)
    r = [dict(k="direct", s=s, n=200 if q else 5000) for s in J.seeds(rng, 2 if q else 8)]
    r += [dict(k="prep", s=s, n=8 if q else 100, tw=["owners"], case=dict(n_area=int(rng.integers(1, 9)))) for s in J.seeds(rng, 2 if q else 12)]
    r += J.hourly(rng, 2 if q else 10, ["owners"], years=1, n_area=3, units_per_area=3, stress=0.85, **kw)
    r += J.daily(rng, 4 if q else 24, ["owners", "season"], years=3 if q else 8, n_area=3, units_per_area=5, stress=0.9, mc=dict(CVT=1e-9), **kw)
    r += J.daily(rng, 2 if q else 12, ["owners", "shares"], years=3 if q else 8, n_area=4, units_per_area=4, stress=0.9, mc=dict(CVT=1e-9), **kw)
    r += J.daily(rng, 2 if q else 8, ["owners", "season", "fractions"], years=2 if q else 5, n_area=8, units_per_area=10, stress=0.9, mc=dict(CVT=1e-9), **kw)
    return r
