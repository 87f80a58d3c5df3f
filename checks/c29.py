"""the linear programming engine returns an optimal basic solution"""
import numpy as np

from lib import jobs as J, netw, rec
from lib.common import tick

RULE = ("a case is one linear program handed to the engine: those of network solutions (recorded from outside) and made up ones, feasible "
        "and bounded by construction, many of them degenerate; the final basis must be feasible, must contain no artificial variable at a "
        "positive value and must cost what an independent solver (HiGHS) finds; programs are repeated after others; non-trivial programs need pivots")
REQUIRE = {"network": 300, "made_up": 600, "repeated": 150, "degenerate": 150, "optima": 900, "pivoted": 500, "small_costs": 60, "wide": 20}
TOL = 1e-6


def judge(out, lp, res, todo, kind):
    """lp: M, N1, A (M x N), b, c (N), art; res: IBAS, BS"""
    M, N1 = lp["M"], lp["N1"]
    bas, bs = np.asarray(res["IBAS"])[:M].astype(int), np.asarray(res["BS"], float)[:M]
    sc = max(1.0, float(np.abs(lp["b"]).max()) if M else 1.0)
    out.n += 1
    if not out.check(np.isfinite(bs).all() and (bas >= 0).all() and (bas < lp["A"].shape[1]).all() and len(set(bas.tolist())) == M,
                     "basis", "final basis %s with values %s" % (bas.tolist(), bs.tolist())):
        return
    x = np.zeros(lp["A"].shape[1])
    x[bas] = bs
    d = dict(A=lp["A"], b=lp["b"], c=lp["c"], N1=N1, x=x)
    if not out.check(bs.min() >= -TOL * sc, "negative", "%s: a variable is %g" % (kind, bs.min()), **d):
        return
    if not out.check(np.abs(x[N1:]).max() <= TOL * sc if x[N1:].size else True, "artificial", "%s: an artificial variable is %g" % (kind, np.abs(x[N1:]).max() if x[N1:].size else 0), **d):
        return
    r = np.abs(lp["A"] @ x - lp["b"]).max()
    if not out.check(r <= TOL * sc, "infeasible", "%s: the constraints are missed by %g" % (kind, r), **d):
        return
    cost = float(lp["c"][:N1] @ x[:N1])
    piv = bool((np.sort(bas) != np.sort(lp["bas0"])).any())
    out.count("pivoted", piv)
    deg = bool((np.abs(bs) < 1e-9).any())
    out.count("degenerate", deg)
    out.case((kind, cost, M, N1) if piv else None, 0)
    todo.append((kind, cost, sc, dict(c=lp["c"][:N1].tolist(), A=lp["A"][:, :N1].tolist(), b=lp["b"].tolist()), d))


def settle(out, todo):
    for (kind, cost, sc, q, d), (status, best) in zip(todo, netw.solve_lps([t[3] for t in todo])):
        if status != 0:
            out.count("oracle_undecided")
            continue
        out.count("optima")
        tol = TOL * sc * max(0.1, float(np.abs(q["c"]).max()) if "small" in kind else max(1.0, float(np.abs(q["c"]).max())))
        out.check(abs(cost - best) <= tol * 3, "not-optimal", "%s: the solution costs %g, the least cost is %g" % (kind, cost, best), **d)
    del todo[:]


def solve(lp):
    """hand a program to the engine in its own form"""
    M, N1 = lp["M"], lp["N1"]
    N = lp["A"].shape[1]
    XOB, XOBI = np.zeros(N), np.zeros((2, N))
    XOBI[0, N1:] = 1.0
    XOBI[1] = lp["c"]
    bas, bs = lp["bas0"].copy(), lp["b"].astype(float).copy()
    A = lp["A"].copy()
    r = rec.call("linp", M=M, N=N, A=A, XOB=XOB, XOBI=XOBI, IBAS=bas, BS=bs, LCLOCK=0.0, N1=N1)
    tick()
    return dict(IBAS=bas, BS=bs, A=A, ret=r)


def made_up(rng, wide=False):
    """rows with slack start with the slack, all others with an artificial variable"""
    m, n = int(rng.integers(1, 9)), int(rng.integers(2, 13))
    if wide:
        m, n = int(rng.integers(2, 16)), int(rng.integers(100, 320))
    G = rng.integers(-4, 5, (m, n)).astype(float)
    G[rng.random((m, n)) < 0.3] = 0
    x0 = rng.integers(0, 8, n).astype(float)
    if rng.random() < 0.5:
        x0[rng.random(n) < 0.6] = 0  # degenerate
    slack = rng.random(m) < 0.5
    b = G @ x0 + np.where(slack, rng.integers(0, 5, m) * (rng.random(m) < 0.6), 0)
    neg = b < 0
    # a slack row with a negative right side becomes an equation with a surplus variable
    S = np.diag(np.where(slack, 1.0, 0.0))[:, slack]
    G, S, b = np.where(neg[:, None], -G, G), np.where(neg[:, None], -S, S), np.abs(b)
    own = slack & ~neg
    art = ~own
    Art = np.eye(m)[:, art]
    A = np.hstack([G, S, Art])
    N1 = n + int(slack.sum())
    bas = np.zeros(m, int)
    bas[own] = n + np.cumsum(slack)[own] - 1
    bas[art] = N1 + np.arange(int(art.sum()))
    c = rng.integers(0, 10, n).astype(float)
    k = rng.random()
    if k < 0.5:  # costs that stay bounded: a nonnegative vector plus a combination of the rows
        y = rng.integers(-3, 4, m)
        c = c + G.T @ y
        cs = S.T @ y
        cfull = np.concatenate([c, cs + rng.integers(0, 3, cs.size), np.zeros(int(art.sum()))])
    else:
        cfull = np.concatenate([c, np.zeros(int(slack.sum())), np.zeros(int(art.sum()))])
    unit = 1.0
    if rng.random() < 0.3:  # the same program in another unit of cost
        unit = float(rng.choice([1e-3, 2.5e-4, 1e-4, 50, 1000]))
    return dict(M=m, N1=N1, A=A, b=b, c=cfull * unit, bas0=bas, small=unit < 1)


def direct(job, out):
    rng = J.rng_of(job)
    todo, old = [], []
    for i in range(job["n"]):
        lp = made_up(rng, job.get("wide"))
        out.count("wide", int(lp["N1"] >= 100))
        res = solve(lp)
        out.count("made_up")
        out.check((res["A"] == lp["A"]).all(), "changed", "the constraint matrix is changed")
        judge(out, lp, res, todo, "made up program" + " with small costs" * lp["small"])
        out.count("small_costs", int(lp["small"]))
        old.append((lp, res))
        if i % 4 == 3:
            lp, ref = old[int(rng.integers(len(old)))]
            again = solve(lp)
            out.count("repeated")
            out.check((again["IBAS"] == ref["IBAS"]).all() and (again["BS"] == ref["BS"]).all(), "history",
                      "the same program ends with basis %s %s, after others with %s %s" % (ref["IBAS"], ref["BS"], again["IBAS"], again["BS"]))
        if out.nviol > 5:
            break
    if old:
        out.sample(A=old[0][0]["A"], b=old[0][0]["b"], c=old[0][0]["c"])
    settle(out, todo)


def network(job, out):
    cur, todo = [], []

    def b(d):
        M, N, N1 = int(d["M"]), int(d["N"]), int(d["N1"])
        A = np.array(d["A"], float)[:M, :N]
        lp = dict(M=M, N1=N1, A=A, b=np.array(d["BS"], float)[:M], c=np.array(d["XOBI"], float)[1, :N], bas0=np.array(d["IBAS"])[:M].astype(int))
        # the form of the engine: a starting basis that is an identity
        ok = N1 <= N and (lp["b"] >= 0).all() and np.array_equal(A[:, lp["bas0"]], np.eye(M))
        cur.append(lp if ok else None)
        if not ok:
            out.count("other_form")

    def a(d, r):
        lp = cur.pop()
        if lp is not None:
            out.count("network")
            judge(out, lp, dict(IBAS=np.array(d["IBAS"]), BS=np.array(d["BS"])), todo, "program of a network")

    rec.hook("linp", b, a)
    for _ in netw.drive(J.rng_of(job), out, job["nets"], job["steps"], tm2=False):
        if len(todo) >= job["keep"] or out.nviol > 5:
            break
    rec.unhook()
    settle(out, todo)


def run(job, out):
    rec.load_all()
    J.dispatch(job, out, dict(direct=direct, network=network))


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="network", s=s, nets=20 if q else 120, steps=8, keep=110 if q else 800) for s in J.seeds(rng, 6 if q else 24)]
    r += [dict(k="direct", s=s, n=25 if q else 300, wide=1) for s in J.seeds(rng, 2 if q else 8)]
    r += [dict(k="direct", s=s, n=200 if q else 3000) for s in J.seeds(rng, 6 if q else 24)]
    return r
