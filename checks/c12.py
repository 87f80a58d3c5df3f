"""loss of load is recorded exactly when load cannot be served"""
from lib import jobs as J

RULE = ("a case is one forecast tier of one hour that is examined: the margins are recomputed from units and loads, the "
        "help of neighbours from the lines, and what is recorded is compared; non-trivial tiers have a deficit")
REQUIRE = {"tier_deficit": 8000, "loss": 4000, "network_no_loss": 100, "tier_all_short": 100, "tier_helped": 500,
           "hours_ambiguous": 0}
TAGS = {"decision", "load", "assist", "hours"}


def run(job, out):
    sh, T, c = J.shadow_run(job, out, TAGS)
    out.sample(case=J.describe(c))


def jobs(tier, rng):
    q = tier == "quick"
    kw = dict(mc=dict(CVT=1e-9))
    r = J.hourly(rng, 3 if q else 12, ["lfu"], years=1, n_area=3, units_per_area=4, stress=0.85)
    r += J.hourly(rng, 2 if q else 8, years=1, n_area=2, units_per_area=3, stress=0.95)
    r += J.daily(rng, 3 if q else 20, ["lfu"], years=2 if q else 6, n_area=3, units_per_area=4, stress=1.0, **kw)
    r += J.daily(rng, 4 if q else 24, years=3 if q else 8, stress=0.9, n_area=4, units_per_area=4, **kw)
    r += J.daily(rng, 2 if q else 8, ["lfu"], years=4 if q else 8, stress=1.05, n_area=2, units_per_area=3, **kw)
    r += J.daily(rng, 1 if q else 6, years=4 if q else 8, stress=0.95, n_area=1, units_per_area=5, **kw)
    r += J.daily(rng, 2 if q else 10, ["lfu", "big"], years=2 if q else 4, stress=1.0, n_area=3, units_per_area=4, **kw)
    r += J.daily(rng, 2 if q else 10, ["lfu"], years=1 if q else 4, stress=1.1, n_area=8, units_per_area=4, **kw)
    r += J.daily(rng, 1 if q else 6, ["fractions"], years=1 if q else 4, stress=0.9, n_area=10, units_per_area=8, **kw)
    r += J.daily(rng, 1 if q else 6, years=40 if q else 90, stress=0.9, n_area=2, units_per_area=3, lfu=False, **kw)
    return r
