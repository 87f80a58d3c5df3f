"""network solutions are feasible flows"""
import json
import os

import numpy as np

from lib import jobs as J, netw
from lib.common import Hang, Out

RULE = ("a case is one network solution (random networks of 2 to 21 areas driven directly through sequences of hours, and "
        "those of whole runs): its margins determine the net exports, the linear power flow of the line states gives the "
        "flows, and balance, line capacities, area limits and the reported flows are judged; non-trivial when a limit binds")
REQUIRE = {"direct": 900, "observed": 150, "solutions_loss": 300, "binding": 250, "flow_laws": 500,
           "solutions_contracts": 200, "solutions_sharing": 300, "solutions_no_sharing": 300, "stored_sound": 4}


def judge(p, out):
    b = out.counts.get("binding", 0)
    netw.feasible(p, out)
    out.case((p["con"].tolist(), p["load"].tolist(), p["y"].tolist()) if out.counts.get("binding", 0) > b else None)


def stored(job, out):
    """stored large networks: on those of "sound" the simplex once took rounding errors for pivots; on those of "known",
    the known finding, it still reaches nearly singular bases"""
    for k, l in json.load(open(os.path.join(os.path.dirname(netw.__file__), "stored_networks.json"))).items():
        for a in l:
            f = {x: np.array(a[x], float) for x in ("BLPA", "BN", "con", "load", "T", "TJ")}
            st = np.array(a["st"], int)
            D = netw.Driver(np.array(a["LP"], int), f["BLPA"], f["BN"], a["NR"])

            def solve(o):
                res = D.solve(f["con"], f["load"], f["T"], f["TJ"], st, a["NLS"])
                judge(netw.problem(D.LP, D.BLPA, st, f["BN"][:, 3], f["con"], f["load"], a["NLS"], f["T"], f["TJ"], res), o)
                return res["S"][:4]

            out.count("stored_" + k)
            if k == "sound":
                solve(out)
                continue
            o, m = Out(), ""
            try:
                with np.errstate(all="ignore"):
                    m = solve(o)
            except (Hang, ArithmeticError, LookupError, ValueError) as e:
                m = repr(e)
            if o.nviol or isinstance(m, str):
                out.violation("large-ill-conditioned", "stored network of %d areas and %d lines: margins %s" % (a["n"], len(st), m))


def run(job, out):
    if job["k"] == "stored":
        return stored(job, out)
    if job["k"] == "direct":
        for p, t, D, a in netw.drive(J.rng_of(job), out, job["nets"], job["steps"], n=job.get("n"), tm2=False, **job.get("kw", {})):
            judge(p, out)
            out.sample(con=p["con"], load=p["load"], state=a[4], loss=p["S"], NLS=p["NLS"])
        return
    for p, t in netw.observed(job, out, J, keep=job["keep"]):
        judge(p, out)


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="direct", s=s, nets=25 if q else 900, steps=6) for s in J.seeds(rng, 7 if q else 24)]
    r += [dict(k="direct", s=s, nets=3 if q else 80, steps=5, n=10) for s in J.seeds(rng, 1 if q else 8)]
    r += [dict(k="direct", s=s, nets=3 if q else 40, steps=3 if q else 5, n=17 + 2 * i % 6) for i, s in enumerate(J.seeds(rng, 3 if q else 8))]
    # contracts and limits of the areas rather than of the lines, two solutions
    r += [dict(k="direct", s=s, nets=30 if q else 600, steps=4, kw=dict(cap=(300, 2000), lim=1, contracts=True, NLS=1)) for s in J.seeds(rng, 2 if q else 8)]
    r += [dict(k="stored")]
    kw = dict(CVT=1e-9)
    r += [dict(j, keep=150 if q else 600) for j in
          J.daily(rng, 2 if q else 12, ["linestates", "contracts"], years=2, n_area=4, units_per_area=4, stress=0.9, lfu=False, mc=kw) +
          J.daily(rng, 2 if q else 12, ["linestates", "owners"], years=2, n_area=5, units_per_area=4, stress=0.9, flow_limit=True, mc=kw)]
    return r
