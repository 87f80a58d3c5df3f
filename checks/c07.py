"""states are drawn at the requested cadence and held in between"""
from lib import jobs as J

RULE = ("a case is one evaluated hour: the number of draws of units and lines, the random states before and after, "
        "and the states, capacities, line states and contracts used by the network solution of that hour; "
        "non-trivial hours are those between two draws of the daily cadence in which a network solution is needed")
REQUIRE = {"hours": 30000, "gen_draws": 10000, "held_network": 300, "fresh_network": 300, "networks_contract": 100}
TAGS = {"cadence", "hold", "contracts", "assist", "decision", "linestate", "capacity"}


def run(job, out):
    sh, T, c = J.shadow_run(job, out, TAGS)
    m = c["mc"]
    k = "held_network" if m["STEP"] == 1 and m["FREQ"] == 24 else "fresh_network"
    out.count(k, out.counts.get("transm", 0))
    out.sample(case=J.describe(c))


def jobs(tier, rng):
    q = tier == "quick"
    kw = dict(lfu=False, n_area=3)
    r = J.hourly(rng, 4 if q else 16, ["contracts", "linestates", "linerates"], years=1, units_per_area=3, stress=0.85, **kw)
    r += J.hourly(rng, 2 if q else 8, ["contracts", "season", "outages", "owners"], years=1 if q else 2, units_per_area=3, stress=0.8, mc=dict(CVT=1e-9), n_area=2, lfu=False)
    r += J.daily(rng, 4 if q else 24, ["contracts", "linestates", "linerates"], years=3 if q else 8, units_per_area=4, stress=0.9, mc=dict(CVT=1e-9), **kw)
    r += J.daily(rng, 1 if q else 6, ["contracts", "linerates"], years=25 if q else 60, units_per_area=3, stress=0.85, n_area=2, lfu=False, mc=dict(CVT=1e-9))
    return r
