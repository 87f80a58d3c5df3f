"""the capacity of the current season"""
from lib import jobs as J

RULE = ("a case is one draw of unit states whose ratings are compared with the input capacities of the season of "
        "that hour; non-trivial when all four seasons occur and the units have four different capacities")
REQUIRE = {"gen_draws": 5000, "seasons": 12, "years": 8, "loss": 20}
TAGS = {"season", "capacity"}


def after(sh, T, c):
    m = sh.m
    seen = set(m.season.tolist())
    sh.out.count("seasons", len(seen))


def run(job, out):
    sh, T, c = J.shadow_run(job, out, TAGS | {"decision"}, after=after)
    out.sample(case=J.describe(c), weeks=c["mc"]["WK"], units=[u["cap"] for u in c["units"]][:4])


def jobs(tier, rng):
    q = tier == "quick"
    kw = dict(lfu=False, n_area=2)
    tw = ["season", "weeks"]
    r = J.hourly(rng, 3 if q else 12, tw, years=1 if q else 2, units_per_area=3, stress=0.8, **kw)
    r += J.daily(rng, 5 if q else 32, tw, years=4 if q else 10, units_per_area=4, stress=1.0, mc=dict(CVT=1e-9), **kw)
    r += J.daily(rng, 1 if q else 6, ["season"], years=3, stress=0.95, mc=dict(WK=(13, 26, 39), CVT=1e-9), **kw)
    r += J.daily(rng, 1 if q else 6, ["season"], years=3, stress=0.95, mc=dict(WK=(20, 40, 52), CVT=1e-9), **kw)
    r += J.daily(rng, 2 if q else 8, tw + ["fractions"], years=40 if q else 90, units_per_area=3, stress=1.0, n_area=1, lfu=False, mc=dict(CVT=1e-9))
    r += J.daily(rng, 1 if q else 4, tw + ["fractions"], years=2, units_per_area=12, stress=0.95, n_area=9, lfu=False, mc=dict(CVT=1e-9))
    return r
