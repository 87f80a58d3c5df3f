"""network matrices stay consistent with the line data"""
import numpy as np

from lib import gen, jobs as J, netw, rec
from lib.common import HookMissing, tick

RULE = ("a case is one matrix of a network: the base matrix and its inverse, those after any sequence of line changes, and those in use inside "
        "a network solution, all compared with the matrix built from scratch from the line data; the solutions are repeated with every area as "
        "reference; non-trivial networks have at least three areas and changed lines")
REQUIRE = {"base": 800, "updates": 700, "inside": 800, "kept": 800, "references": 800, "flow_refs": 200, "lp_refs": 300, "changed_lines": 1500, "parallel": 50, "runs": 2}


def scratch(LP, y, n, NR):
    """(order of the areas, reduced matrix) from the lines themselves"""
    Y = np.zeros((n, n))
    for (k, a, b), v in zip(LP, y):
        Y[a, b] -= v
        Y[b, a] -= v
        Y[a, a] += v
        Y[b, b] += v
    o = [i for i in range(n) if i != NR] + [NR]
    return np.array(o), Y[np.ix_(o[:-1], o[:-1])]


def near(A, B, tol=1e-8):
    A, B = np.asarray(A, float), np.asarray(B, float)
    return A.shape == B.shape and np.isfinite(A).all() and np.abs(A - B).max(initial=0.0) <= tol * max(1e-12, np.abs(B).max(initial=0.0))


def inverse_ok(Z, R, slack=1.0):
    n = R.shape[0]
    Z = np.asarray(Z, float)
    if Z.shape[0] < n or not np.isfinite(Z).all():
        return False
    c = np.linalg.cond(R)
    return np.abs(Z[:n, :n] @ R - np.eye(n)).max() <= 1e-11 * slack * n * c + 1e-9


def padded(Z, n):
    """the row and column of the reference stay zero"""
    return Z.shape[0] == n or not (Z[n:, :].any() or Z[:, n:].any())


def base(out, LP, BLP, BN, NR, got, what, key):
    """matrices as the program keeps them"""
    n = BN.shape[0]
    y0, BB, LT, ZB = got
    o, R = scratch(LP, BLP[:, 0], n, NR)
    out.count("base")
    d = dict(LP=LP, admittances=BLP[:, 0], NR=NR, BB=BB, ZB=ZB, LT=LT)
    ok = out.check(np.array_equal(np.asarray(LT), o), "order", "%s: areas in the order %s, expected %s" % (what, list(LT), o.tolist()), **d)
    ok &= out.check(near(np.asarray(BB)[: n - 1, : n - 1], R) and padded(np.asarray(BB), n - 1), "matrix", "%s: the matrix is not that of the lines" % what, **d)
    ok &= out.check(inverse_ok(ZB, R) and padded(np.asarray(ZB), n - 1), "inverse", "%s: the inverse is not that of the matrix" % what, **d)
    ok &= out.check(np.array_equal(np.asarray(y0), BLP[:, 0]), "admittances", "%s: base admittances %s of lines %s" % (what, y0, BLP[:, 0]), **d)
    out.case((key, NR, R.tolist()) if n > 2 else None)
    return ok


def net_of(rng, n):
    """a random network, sometimes with parallel lines"""
    LP, A, BN = netw.rand_net(rng, n)
    par = rng.random() < 0.3
    if par:
        k = rng.integers(len(LP), size=int(rng.integers(1, 3)))
        add = LP[k].copy()
        sw = rng.random(len(add)) < 0.5
        add[sw] = add[sw][:, [0, 2, 1]]
        LP = np.vstack([LP, add])
        LP[:, 0] = np.arange(len(LP))
        B = A[k].copy()
        B[:, 0::3] *= rng.choice([0.5, 1, 2], B[:, 0::3].shape)
        A = np.vstack([A, B])
    return LP, A, BN, par


def direct(job, out):
    """the matrix routines alone: bases, and any sequence of line changes"""
    rng = J.rng_of(job)
    for i in range(job["n"]):
        n = int(rng.choice([2, 3, 3, 4, 5, 6, 8, 10]))
        LP, A, BN, par = net_of(rng, n)
        out.count("parallel", int(par))
        for NR in range(n):
            r = rec.call("tm1", BN=BN.copy(), LP=LP.copy(), BLP=A[:, :3].copy(), NR=NR)
            tick()
            if not base(out, LP, A[:, :3], BN, NR, r, "network of %d areas" % n, i):
                return
        NR = int(rng.integers(n))
        y0, BB, LT, ZB = rec.call("tm1", BN=BN.copy(), LP=LP.copy(), BLP=A[:, :3].copy(), NR=NR)
        BB, ZB = np.array(BB, float), np.array(ZB, float)
        y = A[:, 0].copy()
        eq = {int(a): k for k, a in enumerate(LT)}
        for s in range(int(rng.integers(1, 7))):
            k = int(rng.integers(len(LP)))
            a, b = int(LP[k, 1]), int(LP[k, 2])
            new = float(A[k, 3 * int(rng.integers(6))])
            for v in (new, -y[k]):
                if NR in (a, b):
                    i1 = eq[b if a == NR else a]
                    Z = rec.call("ximpar", ZB=ZB, ZIJ=-1 / v, NI=i1)
                    rec.call("admref", BB=BB, NII=i1, BIJ=v)
                else:
                    Z = rec.call("ximpa", ZB=ZB, ZIJ=-1 / v, NI=eq[a], NJ=eq[b])
                    rec.call("admitm", BB=BB, NII=eq[a], NJJ=eq[b], BIJ=v)
                ZB = np.array(Z, float)
            y[k] = new
            o, R = scratch(LP, y, n, NR)
            out.count("updates")
            d = dict(LP=LP, admittances=y, NR=NR, BB=BB, ZB=ZB, line=k)
            if not (out.check(near(BB[: n - 1, : n - 1], R) and padded(BB, n - 1), "matrix-update", "after a change of line %d the matrix is not that of the lines" % k, **d)
                    and out.check(inverse_ok(ZB, R, 1000) and padded(ZB, n - 1), "inverse-update", "after a change of line %d the inverse is not that of the matrix" % k, **d)):
                return
        # angles and flows of balanced exports: the same whatever the reference
        e = rng.normal(size=n) * 100
        e -= e.mean()
        p = dict(con=e, a=LP[:, 1], b=LP[:, 2], y=A[:, 0])
        F0, _ = netw.flows(p, e)
        for NR in range(n):
            _, _, LT, ZB = rec.call("tm1", BN=BN.copy(), LP=LP.copy(), BLP=A[:, :3].copy(), NR=NR)
            th = rec.call("thetac", THET=rec.call("theta", Z=ZB, INJ=e[LT]), LT=LT)
            SF, F = rec.call("flo", LP=LP, BLP=A[:, :3], THET=th)
            out.count("references")
            d = dict(LP=LP, admittances=A[:, 0], NR=NR, exports=e)
            if not (out.check(abs(th[NR]) < 1e-12, "reference-angle", "the angle of the reference is %s" % th[NR], **d)
                    and out.check(np.abs(np.asarray(F) - F0).max() <= 1e-6 * 100, "flow-reference", "with area %d as reference the flows are %s, expected %s" % (NR, F, F0), **d)
                    and out.check(np.abs(np.asarray(SF) + e).max() <= 1e-6 * 100, "net-flow", "net flows %s of exports %s" % (SF, e), **d)):
                return
        if i == 0:
            out.sample(areas=n, lines=LP, reference=NR)


class Inside:
    """the matrices in use inside a network solution: right before angles are computed and when a linear program is posed"""

    def __init__(self, out):
        self.out, self.cur, self.n = out, None, 0
        rec.hook("tm2", self.b_tm2, self.a_tm2)
        for f, h in (("theta", self.theta), ("conls", self.pose), ("connls", self.pose)):
            try:
                rec.hook(f, h)
            except HookMissing:
                pass

    def b_tm2(self, d):
        BN, LP, BLP = (np.array(d[k], float) for k in ("BN", "LP", "BLP"))
        LP = LP.astype(int)
        n = BN.shape[0]
        o, R = scratch(LP, BLP[:, 0], n, int(d["NR"]))
        self.cur = dict(n=n, o=o, R=R, LP=LP, y=BLP[:, 0].copy(), y0=np.array(d["BLP0"], float), NR=int(d["NR"]),
                        BB=np.array(d["BB"], float), ZB=np.array(d["ZB"], float), LT=np.array(d["LT"]), J=int(d["JFLAG"]))
        c = self.cur
        self.out.count("changed_lines", int((c["y"] != c["y0"]).sum()))
        # what the solution starts from: the base state
        o0, R0 = scratch(LP, c["y0"], n, c["NR"])
        self.out.count("inside")
        self.out.check(np.array_equal(c["LT"], o0) and near(c["BB"][: n - 1, : n - 1], R0) and inverse_ok(c["ZB"], R0, 1000), "start",
                       "a network solution starts from matrices that are not those of the base state", **self.detail())

    def detail(self):
        c = self.cur
        return {k: c[k] for k in ("LP", "y", "y0", "NR", "BB", "ZB", "LT")}

    def theta(self, d):
        c = self.cur
        if c is None:
            return
        Z = np.array(d["Z"], float)
        self.out.count("theta")
        self.out.case((c["y"].tolist(), c["NR"]) if c["n"] > 2 and (c["y"] != c["y0"]).any() else None)
        self.out.check(inverse_ok(Z, c["R"], 1000), "inverse-inside", "angles are computed with an inverse that is not that of the line states", **self.detail())

    def pose(self, d):
        c = self.cur
        if c is None:
            return
        B = np.array(d["BC"], float)
        n = c["n"]
        self.out.count("posed")
        self.out.check(near(B[: n - 1, : n - 1], c["R"], 1e-7), "matrix-inside", "a linear program is posed with a matrix that is not that of the line states", **self.detail())

    def a_tm2(self, d, r):
        c = self.cur
        self.out.count("kept")
        same = near(d["BB"], c["BB"], 1e-12) and near(d["ZB"], c["ZB"], 1e-12) and np.array_equal(np.array(d["BLP0"], float), c["y0"])
        self.out.check(same, "not-restored", "a network solution leaves other base matrices behind", **self.detail())
        if int(r[1]) == 0:
            # no limit was met: the flows are those of the net exports
            F = np.asarray(r[0], float)
            e = np.zeros(c["n"])
            np.add.at(e, c["LP"][:, 1], F)
            np.subtract.at(e, c["LP"][:, 2], F)
            G, _ = netw.flows(dict(con=e, a=c["LP"][:, 1], b=c["LP"][:, 2], y=c["y"]), e)
            self.out.count("free_flows")
            self.out.check(np.abs(F - G).max(initial=0) <= 1e-6 * max(1.0, np.abs(F).max(initial=0)), "flow-law", "flows %s, their net exports give %s" % (F, G), **self.detail())
        self.cur = None


def solve(job, out):
    """hours of networks, with every area as the reference"""
    rng = J.rng_of(job)
    for _ in range(job["nets"]):
        n = int(rng.choice([2, 3, 3, 4, 4, 5, 6, 7]))
        LP, A, BN, par = net_of(rng, n)
        L = len(LP)
        if not A[:, 0].all():
            continue
        refs = list(range(n)) if n <= 4 else rng.choice(n, 3, replace=False).tolist()
        D = [netw.Driver(LP.copy(), A.copy(), BN.copy(), int(r)) for r in refs]
        for s in range(job["steps"]):
            con, load, T, TJ, st = netw.rand_state(rng, n, L)
            NLS = int(rng.integers(2))
            if s and rng.random() < 0.3:
                for x in D:
                    x.flag = 0  # a new hour
            plain = not (T + TJ).any()
            seen = []
            for x in D:
                first = x.flag == 0
                got = []
                I = Inside(out)
                rec.hook("linp", lambda d: got.append(1))
                try:
                    r = x.solve(con, load, T, TJ, st, NLS)
                finally:
                    rec.unhook()
                if first and not base(out, LP, A[:, :3], BN, x.NR, (x.BLP0, x.BB, x.LT, x.ZB), "first solution of an hour", ("s", s)):
                    return
                seen.append((r, len(got)))
            r0, k0 = seen[0]
            sc = max(1.0, np.abs(con).max(), np.abs(load).max())
            for x, (r, k) in zip(D[1:], seen[1:]):
                d = dict(LP=LP, A=A, lim=BN[:, 3], con=con, load=load, T=T, TJ=TJ, st=st, NLS=NLS, refs=refs, first=r0, other=r)
                edge = np.abs(np.r_[r["S"], r0["S"]]).min() < 1e-8 * sc
                if r["J"] != r0["J"] and edge:
                    out.count("on_edge")  # whether an area is short hangs on the last bits
                elif k == 0 and k0 == 0:
                    out.count("flow_refs")
                    out.check(r["J"] == r0["J"] and np.abs(r["S"] - r0["S"]).max() <= 1e-6 * sc and np.abs(r["F"] - r0["F"]).max(initial=0) <= 1e-6 * sc, "reference",
                              "with area %d as reference margins %s and flows %s, with area %d %s and %s" % (D[0].NR, r0["S"], r0["F"], x.NR, r["S"], r["F"]), **d)
                elif plain:
                    out.count("lp_refs")
                    a, b = (v["S"].clip(0).sum() if v["J"] else 0.0 for v in (r0, r))
                    out.check(abs(a - b) <= 1e-5 * sc * n, "reference-loss", "with area %d as reference the loss is %g, with area %d %g" % (D[0].NR, a, x.NR, b), **d)
            if out.nviol > 3:
                return


def whole(job, out):
    from lib import e2e

    case = J.case_of(job)
    I = []
    e2e.simulate(case, tm2=False, draws=False, annual=False, bound=J.bound_of(case), extra=lambda T, cur, log: I.append(Inside(out)))
    out.count("runs")
    out.sample(case=J.describe(case))


def run(job, out):
    rec.load_all()
    J.dispatch(job, out, dict(direct=direct, solve=solve, run=whole))


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="run", s=s, case=dict(n_area=3 + i % 3, units_per_area=4, stress=1.05, mc=dict(STEP=24, FIN=1 if q else 3, FREQ=1, LS=i % 2, CVT=1e-9)), tw=["linestates", "linerates"])
         for i, s in enumerate(J.seeds(rng, 4 if q else 16))]
    r += [dict(k="solve", s=s, nets=30 if q else 200, steps=5) for s in J.seeds(rng, 6 if q else 24)]
    r += [dict(k="direct", s=s, n=60 if q else 600) for s in J.seeds(rng, 6 if q else 24)]
    return r
