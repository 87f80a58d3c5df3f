"""losses are shared only under the sharing policy"""
import numpy as np

from lib import jobs as J, netw

RULE = ("a case is one network solution; without sharing the loss of every area is held against its own deficit after "
        "contracts, with sharing every loss is held against the load, and where the proportional curtailment satisfies all "
        "limits the losses must be exactly proportional to the loads; non-trivial when load is lost")
REQUIRE = {"direct": 900, "observed": 150, "own": 300, "own_surplus": 300, "proportional": 60, "shared": 200, "covered": 30}


def judge(p, t, out):
    m = p["con"] - p["load"]
    n = len(m)
    tol = netw.TOL * netw.scale(p)
    d = {k: p[k] for k in ("a", "b", "y", "fwd", "bwd", "lim", "con", "load", "NLS", "T", "TJ", "J", "F", "S")}
    u = p["S"].clip(0) if p["J"] == 1 else np.zeros(n)
    out.case((p["con"].tolist(), p["load"].tolist(), p["NLS"], p["y"].tolist()) if u.sum() > tol else None)
    plain = not (p["T"] + p["TJ"]).any()
    if p["NLS"] == 1:
        if not plain and not t:
            return
        e1 = np.zeros(n) if plain else netw.split(p, t)[1]
        r = m - e1
        x = u - (-r).clip(0)
        if x.max() > tol:
            i = int(x.argmax())
            out.violation("loss-beyond-own", "area %d loses %g MW without sharing; after its contracts it has %g MW to spare" % (i, u[i], r[i]), **d)
        if (r < -tol).any() and u.sum() > tol:
            out.count("own")
        out.count("own_surplus", int(((r > tol) & (u.sum() > tol)).sum()))
        return
    if p["J"] == 0:
        return
    x = u - p["load"]
    out.check(x.max() <= tol, "loss-beyond-load", "losses %s of loads %s" % (u.tolist(), p["load"].tolist()), **d)
    out.count("shared")
    pos, neg = float(m.clip(0).sum()), float((-m).clip(0).sum())
    if neg <= pos + tol:
        if pos > 0:
            e = np.where(m > 0, m * neg / pos, m)
            F, off = netw.flows(p, e)
            if (F < p["fwd"] - tol).all() and (-F < p["bwd"] - tol).all() and (np.abs(e) < p["lim"] - tol).all():
                out.count("covered")
                out.check(u.max() <= tol, "loss-without-need", "losses %s although the pool has %g MW to spare and no limit binds" % (u.tolist(), pos - neg), **d)
        return
    if p["load"].sum() <= 0:
        return
    e = m + p["load"] * (neg - pos) / p["load"].sum()
    F, off = netw.flows(p, e)
    if (F < p["fwd"] - tol).all() and (-F < p["bwd"] - tol).all() and (np.abs(e) < p["lim"] - tol).all():
        out.count("proportional")
        exp = p["load"] * (neg - pos) / p["load"].sum()
        if np.abs(u - exp).max() > tol:
            out.violation("not-proportional", "no limit binds and the pool is short of %g MW: losses %s, equal fractions of the loads are %s" % (
                neg - pos, u.tolist(), exp.tolist()), **d)


def run(job, out):
    if job["k"] == "direct":
        for p, t, D, a in netw.drive(J.rng_of(job), out, job["nets"], job["steps"], n=job.get("n"), **job.get("kw", {})):
            judge(p, t, out)
            out.sample(con=p["con"], load=p["load"], loss=p["S"], NLS=p["NLS"])
        return
    for p, t in netw.observed(job, out, J, keep=job["keep"]):
        judge(p, t, out)


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="direct", s=s, nets=25 if q else 600, steps=6) for s in J.seeds(rng, 4 if q else 16)]
    r += [dict(k="direct", s=s, nets=25 if q else 600, steps=6, kw=dict(cap=[3000, 30000], lim=False)) for s in J.seeds(rng, 3 if q else 16)]
    r += [dict(k="direct", s=s, nets=3 if q else 40, steps=3 if q else 5, n=17 + 2 * i % 6) for i, s in enumerate(J.seeds(rng, 2 if q else 6))]
    kw = dict(CVT=1e-9)
    r += [dict(j, keep=150 if q else 600) for j in
          J.daily(rng, 2 if q else 12, ["linestates", "contracts"], years=2, n_area=4, units_per_area=4, stress=0.9, lfu=False, mc=dict(kw, LS=1)) +
          J.daily(rng, 2 if q else 12, ["owners"], years=2, n_area=3, units_per_area=4, stress=1.0, flow_limit=False, mc=dict(kw, LS=0))]
    return r
