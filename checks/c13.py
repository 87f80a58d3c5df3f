"""a single deficient area is helped by its direct neighbours first"""
from lib import jobs as J

RULE = ("a case is one hour and tier with exactly one deficient area: the help of each neighbour (its surplus, the "
        "capacity of the connecting line towards the area in its state) is recomputed and the decision compared; "
        "non-trivial cases are both outcomes, with lines of different capacity in both directions")
REQUIRE = {"tier_single": 3000, "tier_helped": 500, "transm": 500}
TAGS = {"assist", "linestate", "load", "capacity"}


def run(job, out):
    sh, T, c = J.shadow_run(job, out, TAGS)
    out.sample(case=J.describe(c), line=c["lines"][0])


def jobs(tier, rng):
    q = tier == "quick"
    tw = ["linestates", "linerates"]
    kw = dict(mc=dict(CVT=1e-9))
    r = J.hourly(rng, 3 if q else 12, tw, years=1, n_area=3, units_per_area=4, stress=0.8, lfu=False)
    r += J.daily(rng, 5 if q else 32, tw, years=3 if q else 10, stress=0.85, n_area=4, units_per_area=4, lfu=False, **kw)
    r += J.daily(rng, 3 if q else 20, tw, years=3 if q else 10, stress=0.85, n_area=6, units_per_area=4, **kw)
    r += J.daily(rng, 2 if q else 10, tw, years=3 if q else 10, stress=0.85, n_area=2, units_per_area=5, **kw)
    r += J.daily(rng, 2 if q else 12, tw + ["lfu"], years=3 if q else 10, stress=0.85, n_area=3, units_per_area=4, **kw)
    r += J.daily(rng, 1 if q else 6, tw, years=2 if q else 6, stress=0.8, n_area=9, units_per_area=5, lfu=False, **kw)
    return r
