"""the network serves as much load as physically possible"""
from lib import jobs as J, netw

RULE = ("a case is one network solution whose total loss is compared with the optimum of an independent linear program "
        "(HiGHS) for the same capacities, loads, line states, limits and policy; with contracts and no sharing the program "
        "is posed for the contracted part and for the remainder; non-trivial when the optimum is a loss above what the "
        "areas would lose without any network limit")
REQUIRE = {"direct": 900, "observed": 150, "optima": 1000, "optima_loss": 400, "optima_congested": 150, "contracted": 150}


def judge(todo, out):
    res = netw.solve_lps([x[3] for x in todo])
    for (kind, p, got, q, free), (status, best) in zip(todo, res):
        d = {k: p[k] for k in ("a", "b", "y", "fwd", "bwd", "lim", "con", "load", "NLS", "T", "TJ", "J", "F", "S")}
        if status != 0:
            out.count("oracle_undecided")
            if status == 2 and kind == "loss" and p["NLS"] == 1 and (p["T"] + p["TJ"]).any():
                out.violation("remainder-impossible", "after the contracted flows nothing feasible is left", **d)
            continue
        tol = netw.TOL * netw.scale(p) * max(1, len(p["con"]) / 2)
        out.count("optima")
        if kind == "contract":
            out.count("contracted")
        hard = best > free + tol
        if best > tol:
            out.count("optima_loss")
        if hard:
            out.count("optima_congested")
        out.case((kind, p["con"].tolist(), p["load"].tolist(), p["y"].tolist()) if hard else None)
        what = "%g MW of contracted power are not delivered" if kind == "contract" else "%g MW of load are lost"
        if got > best + tol:
            out.violation(kind + "-not-minimal", (what + ", %g MW are unavoidable (policy %d, capacities %s, loads %s)") % (
                got, best, p["NLS"], p["con"].tolist(), p["load"].tolist()), **d)
        elif got < best - tol:
            out.violation(kind + "-impossible", (what + ", but %g MW cannot be avoided (policy %d, capacities %s, loads %s)") % (
                got, best, p["NLS"], p["con"].tolist(), p["load"].tolist()), **d)


def add(todo, p, t):
    m = p["con"] - p["load"]
    plain = not (p["T"] + p["TJ"]).any()
    if not plain and t:
        q = netw.contracted(p)
        e1 = netw.split(p, t)[1]
        got = float(sum(min(max(e - i, 0), b) for e, i, b in zip(e1, q["inj"], q["ub"])))
        todo.append(("contract", p, got, q, max(0.0, -sum(q["inj"]))))
    if p["J"] == 0:
        if plain:
            todo.append(("loss", p, 0.0, netw.optimum(p, t), max(0.0, -m.sum())))
        return
    q = netw.optimum(p, t)
    if q is not None:
        todo.append(("loss", p, netw.loss(p), q, max(0.0, -m.sum())))


def run(job, out):
    todo = []
    if job["k"] == "direct":
        for p, t, D, a in netw.drive(J.rng_of(job), out, job["nets"], job["steps"], n=job.get("n")):
            add(todo, p, t)
            out.sample(con=p["con"], load=p["load"], loss=p["S"], NLS=p["NLS"])
    else:
        for p, t in netw.observed(job, out, J, keep=job["keep"]):
            add(todo, p, t)
    judge(todo, out)


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="direct", s=s, nets=25 if q else 900, steps=6) for s in J.seeds(rng, 7 if q else 24)]
    r += [dict(k="direct", s=s, nets=3 if q else 80, steps=5, n=10) for s in J.seeds(rng, 1 if q else 8)]
    r += [dict(k="direct", s=s, nets=3 if q else 40, steps=3 if q else 5, n=17 + 2 * i % 6) for i, s in enumerate(J.seeds(rng, 3 if q else 8))]
    kw = dict(CVT=1e-9)
    r += [dict(j, keep=150 if q else 600) for j in
          J.daily(rng, 2 if q else 12, ["linestates", "contracts"], years=2, n_area=4, units_per_area=4, stress=0.9, lfu=False, mc=kw) +
          J.daily(rng, 2 if q else 12, ["linestates", "owners"], years=2, n_area=5, units_per_area=4, stress=0.9, flow_limit=True, mc=kw)]
    return r
