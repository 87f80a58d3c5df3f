"""planned outages in exactly their scheduled weeks"""
from lib import jobs as J, prep

RULE = ("a case is one draw of unit states compared with the scheduled weeks, or one prepared system whose outage "
        "table is compared unit by unit and week by week; non-trivial when units are on outage")
REQUIRE = {"outage_draws": 4000, "outage_weeks": 500, "years": 6, "prepared": 20, "loss": 20}
TAGS = {"outage"}


def run(job, out):
    if job["k"] == "prep":
        return prep.job(job, out, ["outages"], J)
    sh, T, c = J.shadow_run(job, out, TAGS | {"decision", "capacity"})
    out.sample(case=J.describe(c), units=[[u[k] for k in ("pa", "b1", "d1", "b2", "d2")] for u in c["units"]])


def jobs(tier, rng):
    q = tier == "quick"
    kw = dict(lfu=False, n_area=2)
    tw = ["outages", "noauto"]
    r = J.hourly(rng, 3 if q else 12, tw, years=1 if q else 2, units_per_area=4, stress=0.7, mc=dict(CVT=1e-9), **kw)
    r += J.hourly(rng, 1 if q else 4, tw, years=2, units_per_area=3, stress=0.4, mc=dict(CVT=1e-9), **kw)
    r += J.daily(rng, 4 if q else 32, tw, years=3 if q else 10, units_per_area=5, stress=0.9, mc=dict(CVT=1e-9), **kw)
    r += [dict(k="prep", s=s, n=8 if q else 120, tw=tw, case=dict(units_per_area=int(rng.integers(1, 12)))) for s in J.seeds(rng, 3 if q else 16)]
    r += [dict(k="prep", s=s, n=4 if q else 60, tw=["outages"], case=dict(maint="auto")) for s in J.seeds(rng, 1 if q else 4)]
    r += [dict(k="prep", s=s, n=4 if q else 60, case=dict(maint="auto", n_area=1)) for s in J.seeds(rng, 1 if q else 2)]
    r += J.daily(rng, 2 if q else 8, tw, years=40 if q else 90, units_per_area=5, stress=0.9, n_area=1, lfu=False, mc=dict(CVT=1e-9))
    r += J.daily(rng, 1 if q else 4, tw, years=2, units_per_area=15, stress=0.85, n_area=8, lfu=False, mc=dict(CVT=1e-9))
    r += [dict(k="prep", s=s, n=4 if q else 40, tw=tw, case=dict(n_area=int(rng.integers(8, 13)), units_per_area=int(rng.integers(10, 25)))) for s in J.seeds(rng, 1 if q else 6)]
    return r
