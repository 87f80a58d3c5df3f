"""The network solution under test, driven directly on random networks, and its oracle.

A `case` of this module is one call of the network solution (transm) with everything
that went in and came out.  The oracle works from first principles: the angles that
belong to the net exports of the areas give the flows; a linear program solved by HiGHS
(in another interpreter, the one of the program has no scipy) gives the least loss.
"""
import json
import os
import subprocess
import tempfile

import numpy as np

from lib import rec
from lib.common import VERIF, Inconclusive

TOL = 1e-5


def rand_net(rng, n, cap=None, lim=None, mesh=None):
    """a connected network in the program's own tables: LP, BLPA, BN"""
    kind = mesh if mesh is not None else rng.choice(["tree", "ring", "mesh", "full", "star"])
    nodes = rng.permutation(n)
    if kind == "star":
        edges = [(nodes[0], nodes[i]) for i in range(1, n)]
    elif kind == "tree":
        edges = [(nodes[int(rng.integers(i))], nodes[i]) for i in range(1, n)]
    else:
        edges = [(nodes[i], nodes[i + 1]) for i in range(n - 1)]
        if kind == "ring" and n > 2:
            edges.append((nodes[n - 1], nodes[0]))
        if kind in ("mesh", "full"):
            p = 0.3 if kind == "mesh" else 1.0
            for i in range(n):
                for j in range(i + 2, n):
                    if rng.random() < p and len(edges) < (24 if n < 16 else 50):
                        edges.append((nodes[i], nodes[j]))
    edges = [(int(a), int(b)) if rng.random() < 0.5 else (int(b), int(a)) for a, b in edges]
    edges = [edges[k] for k in rng.permutation(len(edges))]
    L = len(edges)
    LP = np.array([[k, a, b] for k, (a, b) in enumerate(edges)], int).reshape(L, 3)
    lo, hi = cap or [(20, 120), (50, 400), (1, 30), (300, 2000)][int(rng.integers(4))]
    A = np.zeros((L, 18))
    for k in range(L):
        y = float(rng.integers(20, 200))
        for s in range(6):
            A[k, 3 * s] = -y if rng.random() < 0.5 or s == 0 else -float(rng.choice([0.5, 1, 7.25, 30, 90, 333.3] if n < 16 else
                                                                                   [20, 30, 57.5, 90, 145, 333.3]))
            A[k, 3 * s + 1] = rng.integers(lo, hi)
            A[k, 3 * s + 2] = rng.integers(lo, hi)
            if rng.random() < 0.1:
                A[k, 3 * s + int(rng.integers(1, 3))] = 1
    BN = np.zeros((n, 5))
    BN[:, 0] = np.arange(n)
    r = rng.random() if lim is None else (0.0 if lim else 1.0)
    if r < 0.35:
        BN[:, 3] = rng.integers(10, 400, n)
    elif r < 0.5:
        BN[:, 3] = np.where(rng.random(n) < 0.5, rng.integers(0, 200, n), 30000)
    else:
        BN[:, 3] = 30000
    BN[:, 4] = BN[:, 3]
    return LP, A, BN


def rand_state(rng, n, L, contracts=None):
    """capacities, loads, contracted deliveries and line states of one hour"""
    sc = float(rng.choice([60, 300, 1000]))
    load = np.round(rng.uniform(0.5, 1.5, n) * 5 * sc, int(rng.integers(0, 3)))
    con = np.round(load + rng.normal(0, sc, n), int(rng.integers(0, 3)))
    r = rng.random()
    if r < 0.15:
        con = np.where(rng.random(n) < 0.5, con, load)  # areas exactly balanced
    elif r < 0.25:
        con[int(rng.integers(n))] = 0.0
    elif r < 0.32:
        load[int(rng.integers(n))] = 0.0
    elif r < 0.4:  # most of the load cannot be served
        con = np.round(load * rng.uniform(0, 0.45, n), 1)
        i = int(rng.integers(n))
        con[i] = np.round(load[i] * rng.uniform(1, 1.2)) + 5
    con = con.clip(0)
    if n > 1 and ((con >= load).all() or (con < load).all()):
        i, j = (int(x) for x in rng.choice(n, 2, replace=False))
        con[i], con[j] = np.round(load[i] * 0.8), load[j] + 50
        load[i] = max(load[i], 10.0)
        con[i] = min(con[i], load[i] - 5)
    T, TJ = np.zeros(n), np.zeros(n)
    if (rng.random() < 0.45 if contracts is None else contracts) and n > 1:
        for v, q in ((T, 3), (TJ, 2)):
            for _ in range(int(rng.integers(0, q + 1))):
                a, b = rng.choice(n, 2, replace=False)
                x = float(rng.integers(1, int(sc))) if v is T else float(np.round(rng.uniform(1, sc), 2))
                v[a] += x
                v[b] -= x
    st = rng.integers(1, 7, L) if rng.random() < 0.6 else np.ones(L, int)
    return con, load, T, TJ, st


class Driver:
    """calls the network solution the way the hourly simulation does"""

    def __init__(self, LP, BLPA, BN, NR):
        n, L = BN.shape[0], LP.shape[0]
        self.LP, self.BLPA, self.BN0, self.NR = LP, BLPA, BN, NR
        self.BN = BN.copy()
        self.BLP0, self.BB, self.ZB, self.LT = np.zeros(L), np.zeros((n, n)), np.zeros((n, n)), np.zeros(n, int)
        self.flag = 0

    def solve(self, con, load, T, TJ, st, NLS, IOI=0, CLOCK=1, JHOUR=0, pln=None, pct=None, mult=None):
        L, n = self.LP.shape[0], self.BN.shape[0]
        a = dict(IFLAG=self.flag, JFLAG=0, CLOCK=CLOCK, JHOUR=JHOUR, IOI=IOI, BN=self.BN, BLPA=self.BLPA.copy(),
                 BLP0=self.BLP0, BB=self.BB, LT=self.LT, ZB=self.ZB, LP=self.LP.copy(), NR=self.NR,
                 STMULT=np.ones((L, 2)) if mult is None else mult.copy(),
                 LNSTAT=st.copy(), NLS=NLS, TRNSFR=T.copy(), TRNSFJ=TJ.copy(), SYSCON=con.copy(), CAPREQ=load.copy(),
                 PLNDST=np.ones(3) if pln is None else pln.copy(), PCTAVL=np.ones(3) if pct is None else pct.copy())
        keep = {k: a[k].copy() for k in ("BLPA", "LP", "STMULT", "LNSTAT", "TRNSFR", "TRNSFJ", "SYSCON", "CAPREQ", "PLNDST", "PCTAVL")}
        bn0 = self.BN.copy()
        J, F, S = rec.call("transm", **a)
        self.flag = 1
        changed = [k for k, v in keep.items() if not np.array_equal(v, a[k])]
        if not np.array_equal(bn0[:, [0, 3, 4]], self.BN[:, [0, 3, 4]]):
            changed.append("area limits")
        return dict(J=int(J), F=np.asarray(F, float).copy(), S=np.asarray(S, float).copy(), changed=changed)


def problem(LP, BLPA, st, lim, con, load, NLS, T, TJ, res, mult=None):
    """the case as the oracle sees it"""
    L = LP.shape[0]
    k = np.arange(L)
    s = (np.asarray(st).astype(int) - 1) * 3
    mult = np.ones((L, 2)) if mult is None else mult
    return dict(a=LP[:, 1].astype(int), b=LP[:, 2].astype(int), y=BLPA[k, s].astype(float),
                fwd=BLPA[k, s + 1] * mult[:, 0], bwd=BLPA[k, s + 2] * mult[:, 1], lim=np.asarray(lim, float), con=np.asarray(con, float),
                load=np.asarray(load, float), NLS=int(NLS), T=np.asarray(T, float), TJ=np.asarray(TJ, float), **res)


def law(p):
    """(flow of each line per angle, net export of each area per angle)"""
    n, L = len(p["con"]), len(p["y"])
    Fm = np.zeros((L, n))
    Fm[np.arange(L), p["a"]] += -p["y"]
    Fm[np.arange(L), p["b"]] -= -p["y"]
    E = np.zeros((n, n))
    np.add.at(E, p["a"], Fm)
    np.subtract.at(E, p["b"], Fm)
    return Fm, E


def flows(p, e):
    """line flows of the net exports e, and how far e is from being a possible net export"""
    Fm, E = law(p)
    n = len(e)
    if n == 1:
        return np.zeros(len(p["y"])), float(np.abs(e).max())
    th = np.zeros(n)
    th[1:] = np.linalg.solve(E[1:, 1:], np.asarray(e, float)[1:])
    return Fm @ th, float(abs(np.sum(e)))


def net_out(p, F):
    e = np.zeros(len(p["con"]))
    np.add.at(e, p["a"], F)
    np.subtract.at(e, p["b"], F)
    return e


def scale(p):
    return max(1.0, float(np.abs(p["con"]).max()), float(np.abs(p["load"]).max()))


def lp(p, inj, ub, sb, fwd, bwd, exp, imp):
    """least loss: exports E th = inj + u - s, 0<=u<=ub, 0<=s<=sb, within the limits"""
    Fm, E = law(p)
    return dict(F=Fm.tolist(), E=E.tolist(), inj=list(map(float, inj)), ub=list(map(float, ub)), sb=list(map(float, sb)),
                fwd=list(map(float, fwd)), bwd=list(map(float, bwd)), exp=list(map(float, exp)), imp=list(map(float, imp)))


SOLVER = r'''
import json, sys
import numpy as np
from scipy.optimize import linprog
out = []
for r in json.load(open(sys.argv[1])):
    if "c" in r:
        res = linprog(r["c"], A_eq=r["A"], b_eq=r["b"], bounds=[(0, None)] * len(r["c"]), method="highs")
        out.append([int(res.status), None if res.fun is None else float(res.fun)])
        continue
    F, E = np.array(r["F"], float), np.array(r["E"], float)
    n, L = len(r["inj"]), len(r["fwd"])
    F = F.reshape(L, n)
    z, zn = np.zeros((L, 2 * n)), np.zeros((n, 2 * n))
    Aub = np.vstack([np.hstack([F, z]), np.hstack([-F, z]), np.hstack([E, zn]), np.hstack([-E, zn])])
    bub = np.concatenate([r["fwd"], r["bwd"], r["exp"], r["imp"]])
    Aeq = np.hstack([E, -np.eye(n), np.eye(n)])
    bnds = [(0, 0)] + [(None, None)] * (n - 1) + [(0, x) for x in r["ub"]] + [(0, x) for x in r["sb"]]
    res = linprog(np.r_[np.zeros(n), np.ones(n), np.zeros(n)], A_ub=Aub, b_ub=bub, A_eq=Aeq, b_eq=r["inj"], bounds=bnds, method="highs")
    out.append([int(res.status), None if res.fun is None else float(res.fun)])
json.dump(out, open(sys.argv[2], "w"))
'''


def solve_lps(lps):
    """[(status, least value)] from HiGHS"""
    if not lps:
        return []
    d = tempfile.mkdtemp(prefix="verif-lp-")
    a, b, s = (os.path.join(d, x) for x in ("in.json", "out.json", "solve.py"))
    with open(a, "w") as f:
        json.dump(lps, f)
    with open(s, "w") as f:
        f.write(SOLVER)
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    try:
        r = subprocess.run(["python3-vt", "-B", s, a, b], capture_output=True, text=True, env=env)
        if r.returncode:
            raise Inconclusive("LP oracle failed: " + r.stderr[-400:])
        return json.load(open(b))
    finally:
        for x in (a, b, s):
            if os.path.exists(x):
                os.remove(x)
        os.rmdir(d)


# --------------------------------------------------------------------- judgements
def exports(p):
    """net exports of the areas that the reported margins imply"""
    return p["con"] - p["load"] + (p["S"] if p["J"] == 1 else -p["S"])


def feasible(p, out):
    """the reported margins belong to a flow the network can carry"""
    n = len(p["con"])
    tol = TOL * scale(p)
    e = exports(p)
    F, off = flows(p, e)
    d = {k: p[k] for k in ("a", "b", "y", "fwd", "bwd", "lim", "con", "load", "NLS", "T", "TJ", "J", "F", "S")}
    if not np.isfinite(p["S"]).all() or not np.isfinite(p["F"]).all():
        out.violation("not-finite", "network solution is not finite: margins %s flows %s" % (p["S"], p["F"]), **d)
        return
    out.check(off <= n * tol, "exports-unbalanced", "net exports of the areas add up to %g: %s" % (e.sum(), e.tolist()), **d)
    if off > n * tol:
        return
    x = np.maximum(F - p["fwd"], -F - p["bwd"])
    if x.size and x.max() > tol:
        k = int(x.argmax())
        out.violation("line-overload", "line %d carries %g, capacities are %g forward and %g backward" % (k, F[k], p["fwd"][k], p["bwd"][k]), **d)
    x = np.abs(e) - p["lim"]
    if x.max() > tol:
        k = int(x.argmax())
        out.violation("area-overload", "net export of area %d is %g, its limit %g" % (k, e[k], p["lim"][k]), **d)
    loss = p["S"].clip(0) if p["J"] == 1 else np.zeros(n)
    plain = not (p["T"] + p["TJ"]).any()
    if plain and (loss > p["load"] + tol).any():
        out.violation("loss-above-load", "losses %s of loads %s" % (loss.tolist(), p["load"].tolist()), **d)
    # the flows reported belong to (the last part of) these exports
    if p["J"] == 0 or p["NLS"] == 0 or plain:
        if not p["F"].shape == F.shape or (F.size and np.abs(p["F"] - F).max() > tol):
            out.violation("flow-law", "flows %s reported, the net exports give %s" % (p["F"].tolist(), F.tolist()), **d)
        out.count("flow_laws")
    if F.size and (np.maximum(F - p["fwd"], -F - p["bwd"]) > -tol).any() or (np.abs(e) - p["lim"] > -tol).any():
        out.count("binding")
    out.count("solutions")
    out.count("solutions_sharing" if p["NLS"] == 0 else "solutions_no_sharing")
    if not plain:
        out.count("solutions_contracts")
    if loss.any():
        out.count("solutions_loss")


def split(p, tm2):
    """the contracted part of a solution as observed: (flow, net exports)"""
    t = tm2[0]
    return np.asarray(t["FLOW"], float), np.asarray(t["BN1"], float)[:, 1]


def optimum(p, tm2=None):
    """the linear program whose optimum is the least loss of this case; None if not defined without the contracted part"""
    m = p["con"] - p["load"]
    n = len(m)
    lim = p["lim"]
    if p["NLS"] == 0:
        return lp(p, m, p["load"], p["con"], p["fwd"], p["bwd"], lim, lim)
    if not (p["T"] + p["TJ"]).any():
        return lp(p, m, (-m).clip(0), m.clip(0), p["fwd"], p["bwd"], lim, lim)
    if tm2 is None:
        return None
    f1, e1 = split(p, tm2)
    r = m - e1
    z = np.maximum
    return lp(p, r, (-r).clip(0), r.clip(0), z(p["fwd"] - f1, 0), z(p["bwd"] + f1, 0), z(lim - e1, 0), z(lim + e1, 0))


def contracted(p):
    """the linear program for the contracted part: least undelivered power"""
    t = np.maximum(p["T"] + p["TJ"], np.minimum(p["con"] - p["load"], 0))
    return lp(p, t, (-t).clip(0), t.clip(0), p["fwd"], p["bwd"], p["lim"], p["lim"])


def loss(p):
    return float(p["S"].clip(0).sum()) if p["J"] == 1 else 0.0


def drive(rng, out, nets, steps, n=None, tm2=True, contracts=None, NLS=None, **kw):
    """random hours on random networks; yields (problem, observed inner calls, driver, arguments)"""
    got = []
    if tm2:
        def b(d):
            got.append(dict(BN=d["BN"].copy(), BLP=d["BLP"].copy(), NLS=d["NLS"]))

        def a(d, r):
            got[-1].update(FLOW=np.array(r[0], float), BN1=d["BN"].copy(), INDIC=r[1])

        rec.hook("tm2", b, a)
    try:
        for _ in range(nets):
            k = int(n if n is not None else rng.choice([2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 12]))
            LP, A, BN = rand_net(rng, k, **kw)
            D = Driver(LP, A, BN, int(rng.integers(k)))
            for s in range(steps):
                con, load, T, TJ, st = rand_state(rng, k, len(LP), contracts)
                nls = int(rng.integers(2)) if NLS is None else NLS
                if rng.random() < 0.25:
                    D.flag = 0  # a new hour
                del got[:]
                res = D.solve(con, load, T, TJ, st, nls)
                out.count("direct")
                yield problem(LP, A, st, BN[:, 3], con, load, nls, T, TJ, res), list(got), D, (con, load, T, TJ, st, nls)
    finally:
        rec.unhook()


def observed(job, out, J, keep=400):
    """network solutions of a whole run: yields (problem, inner calls)"""
    job = dict(job, keep=keep)
    sh, T, case = J.shadow_run(job, out, set(), tm2=True)
    m = sh.m
    BL = np.zeros((m.L, 18))
    BL[:, 0::3], BL[:, 1::3], BL[:, 2::3] = m.adm, m.fwd, m.bwd
    LP = np.column_stack([np.arange(m.L), m.lfrom, m.lto]) if m.L else np.zeros((0, 3), int)
    for c in sh.transm_args:
        out.count("observed")
        yield problem(LP, BL, c["LNSTAT"], m.limit, c["SYSCON"], c["CAPREQ"], c["NLS"], c["TRNSFR"], c["TRNSFJ"],
                      dict(J=int(c["JFLAG"]), F=np.asarray(c["FLOW"], float), S=np.asarray(c["SADJ"], float))), c["tm2"]
