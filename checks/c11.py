"""firm contracts are in force on exactly their days"""
import numpy as np

from lib import jobs as J, prep

RULE = ("a case is one day of one set of contracts: the deliveries of every area are compared with the contracts read "
        "day by day, in the prepared data and in the draws and network solutions of whole runs; non-trivial when "
        "contracts are in force")
REQUIRE = {"contract_days": 3000, "prepared": 20, "networks_contract": 100, "transm": 200}
TAGS = {"contracts"}


def run(job, out):
    if job["k"] == "prep":
        return prep.job(job, out, ["contracts"], J)
    sh, T, c = J.shadow_run(job, out, TAGS)
    out.sample(case=J.describe(c), contracts=c["fc"])


def jobs(tier, rng):
    q = tier == "quick"
    kw = dict(lfu=False, mc=dict(CVT=1e-9))
    r = [dict(k="prep", s=s, n=10 if q else 100, tw=["contracts"], case=dict(n_area=int(rng.integers(2, 8)))) for s in J.seeds(rng, 4 if q else 16)]
    r += [dict(k="prep", s=s, n=4 if q else 30, case=dict(contracts=False)) for s in J.seeds(rng, 1 if q else 2)]
    r += [dict(k="prep", s=s, n=6 if q else 60, tw=["manycontracts"], case=dict(n_area=int(rng.integers(5, 9)))) for s in J.seeds(rng, 2 if q else 8)]
    r += J.hourly(rng, 3 if q else 12, ["contracts"], years=1 if q else 2, n_area=3, units_per_area=3, stress=0.85, **kw)
    r += J.daily(rng, 3 if q else 24, ["contracts"], years=3 if q else 8, n_area=4, units_per_area=3, stress=0.9, **kw)
    r += J.daily(rng, 1 if q else 8, ["contracts"], years=25 if q else 60, n_area=2, units_per_area=3, stress=0.9, **kw)
    r += J.daily(rng, 1 if q else 6, ["manycontracts"], years=2, n_area=8, units_per_area=4, stress=0.85, **kw)
    return r
