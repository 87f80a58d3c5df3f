"""an hour's network result does not depend on earlier hours"""
import numpy as np

from lib import jobs as J, netw, rec

RULE = ("a case is one network solution inside a sequence of hours, tiers, policies and line states on one network, "
        "compared with the solution of the same hour by a driver that has solved nothing before; after every solution the "
        "line table, area limits and base matrices are compared with those from before; also: the solutions of whole runs "
        "are solved again afresh; non-trivial when the hour is solved after another one")
REQUIRE = {"direct": 500, "replayed": 900, "later_tiers": 300, "matrices": 500, "observed": 150}


def same(out, p, a, b, what):
    tol = 1e-6 * netw.scale(p)
    d = {k: p[k] for k in ("a", "b", "y", "fwd", "bwd", "lim", "con", "load", "NLS", "T", "TJ")}
    out.count("replayed")
    if a["J"] != b["J"] or a["S"].shape != b["S"].shape or np.abs(a["S"] - b["S"]).max(initial=0) > tol:
        out.violation("history-result", "%s: result %s %s, solved afresh %s %s" % (what, a["J"], a["S"].tolist(), b["J"], b["S"].tolist()), **d)
    elif a["F"].shape != b["F"].shape or np.abs(a["F"] - b["F"]).max(initial=0) > tol:
        out.violation("history-flow", "%s: flows %s, solved afresh %s" % (what, a["F"].tolist(), b["F"].tolist()), **d)


def direct(job, out):
    rng = J.rng_of(job)
    for p, t, D, a in netw.drive(rng, out, job["nets"], job["steps"], tm2=False):
        con, load, T, TJ, st, NLS = a
        out.check(not p["changed"], "network-data-changed", "solving an hour changes %s" % p["changed"])
        x = netw.Driver(D.LP, D.BLPA, D.BN0, D.NR)
        b = x.solve(con, load, T, TJ, st, NLS)
        same(out, p, p, b, "direct")
        # the base matrices are still those of the lines' first states
        y = netw.Driver(D.LP, D.BLPA, D.BN0, D.NR)
        B0, BB, LT, ZB = rec.call("tm1", BN=D.BN0.copy(), LP=D.LP, BLP=D.BLPA[:, :3].copy(), NR=D.NR)
        n = len(con)
        for nm, g, e in (("admittance matrix", D.BB[:n - 1, :n - 1], BB[:n - 1, :n - 1]), ("its inverse", D.ZB[:n - 1, :n - 1], ZB[:n - 1, :n - 1]),
                         ("base admittances", D.BLP0, B0), ("area order", D.LT, LT)):
            out.check(np.abs(np.asarray(g, float) - np.asarray(e, float)).max(initial=0) <= 1e-9 * max(1, np.abs(e).max(initial=0)),
                      "base-network-changed", "after an hour with line states %s the base %s is not what it was" % (st.tolist(), nm))
        out.count("matrices")
        out.case((con.tolist(), st.tolist(), NLS))
        if D.flag:
            out.count("later_tiers")
        out.sample(con=con, load=load, state=st)


def run(job, out):
    if job["k"] == "direct":
        return direct(job, out)
    for p, t in netw.observed(job, out, J, keep=job["keep"]):
        n, L = len(p["con"]), len(p["y"])
        A = np.zeros((L, 18))
        A[:, 0], A[:, 1], A[:, 2] = p["y"], p["fwd"], p["bwd"]
        LP = np.column_stack([np.arange(L), p["a"], p["b"]])
        BN = np.zeros((n, 5))
        BN[:, 0], BN[:, 3], BN[:, 4] = np.arange(n), p["lim"], p["lim"]
        # the same lines, but their present state is the base of the new driver
        x = netw.Driver(LP, A, BN, 0)
        b = x.solve(p["con"], p["load"], p["T"], p["TJ"], np.ones(L, int), p["NLS"])
        la, lb = netw.loss(p), netw.loss(dict(p, **b))
        plain = not (p["T"] + p["TJ"]).any()
        out.count("replayed")
        if plain and abs(la - lb) > 1e-5 * netw.scale(p) * n:
            out.violation("history-loss", "a run loses %g MW in an hour that loses %g MW when solved afresh" % (la, lb),
                          **{k: p[k] for k in ("a", "b", "y", "fwd", "bwd", "lim", "con", "load", "NLS", "T", "TJ")})
        out.case((p["con"].tolist(), p["load"].tolist()))


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="direct", s=s, nets=12 if q else 100, steps=12) for s in J.seeds(rng, 5 if q else 16)]
    kw = dict(CVT=1e-9)
    r += [dict(j, keep=200 if q else 800) for j in
          J.daily(rng, 2 if q else 12, ["linestates", "lfu"], years=2, n_area=4, units_per_area=4, stress=0.9, contracts=False, owners=False, mc=kw) +
          J.daily(rng, 2 if q else 12, ["linestates"], years=2, n_area=5, units_per_area=4, stress=0.9, flow_limit=True, contracts=False, owners=False, mc=kw)]
    return r
