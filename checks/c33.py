"""dense linear algebra helpers factor and invert"""
import numpy as np

from lib import jobs as J, netw, rec
from lib.common import tick

RULE = ("a case is one square matrix handed to the factorisation, which is rebuilt from the factors, and to the inversion, which is multiplied back; "
        "random, permuted, badly scaled, near singular and singular matrices, those of networks and those of the linear programs; "
        "non-trivial matrices need exchanges of rows")
REQUIRE = {"factored": 1500, "inverted": 1200, "exchanged": 800, "singular": 150, "scaled": 150, "permutation": 150, "used": 80, "view": 200}
ASSUMPTIONS = ["a zero pivot in the first column is not announced by the factorisation, because its index 0 also means that there is none"]


def rebuild(LU, piv, n):
    """P^-1 L U from the compact form: multipliers with negative sign below the diagonal"""
    U = np.triu(LU[:n, :n])
    X = U.copy()
    for k in range(n - 2, -1, -1):
        X[k + 1:] -= np.outer(LU[k + 1: n, k], X[k])
        p = int(piv[k])
        X[[k, p]] = X[[p, k]]
    return X


def matrix(rng):
    n = int(rng.integers(1, 13))
    k = rng.integers(8)
    A = rng.normal(size=(n, n))
    kind = "random"
    if k == 1:
        A = rng.integers(-3, 4, (n, n)).astype(float)
        kind = "integers"
    elif k == 2:
        A = np.eye(n)[rng.permutation(n)] * rng.choice([-1.0, 1.0, 2.0], n)
        kind = "permutation"
    elif k == 3:
        A = A * 10.0 ** rng.integers(-9, 10, (n, 1)) if rng.random() < 0.5 else A * 10.0 ** rng.integers(-9, 10)
        kind = "scaled"
    elif k == 4:
        u = rng.integers(-2, 3, (n, max(1, n - 1))).astype(float)
        A = u @ rng.integers(-2, 3, (u.shape[1], n)).astype(float)
        if n == 1:
            A[:] = 0
        kind = "singular"
    elif k == 5:
        A[rng.random((n, n)) < 0.6] = 0
        kind = "sparse"
    elif k == 6:
        B = np.abs(rng.normal(size=(n, n)))
        B = B + B.T
        A = -B + np.diag(B.sum(axis=1) + rng.random(n))
        kind = "admittance"
    elif k == 7:
        A = np.triu(A) if rng.random() < 0.5 else np.tril(A)
        kind = "triangular"
    return np.array(A, float), kind


def judge(out, A, kind, view=False):
    n = A.shape[0]
    sc = max(np.abs(A).max(), 1e-300)

    def room():
        """a work array that is larger than the matrix: nothing else may change"""
        if not view:
            return A.copy(), None
        W = np.full((n + 2, n + 3), 7.25)
        W[:n, :n] = A
        return W, W

    F, W = room()
    info, piv = rec.call("dgefa", A=F, N=n)
    tick()
    piv = np.asarray(piv)
    out.count("factored")
    out.count(kind)
    out.count("view", int(view))
    d = dict(A=A, F=F, pivots=piv)
    if not out.check(piv.shape[0] >= n and all(k <= int(piv[k]) < n for k in range(n)), "pivots", "pivots %s of a matrix of %d rows" % (piv.tolist(), n), **d):
        return
    exch = bool((piv[:n] != np.arange(n)).any())
    out.count("exchanged", int(exch))
    out.case((kind, np.round(A / sc, 6).tolist()) if exch else None)
    ok = np.isfinite(F).all() and np.abs(rebuild(F, piv, n) - A).max() <= 1e-10 * sc * n * 4
    if not out.check(ok, "factors", "the factors do not give the matrix (%s, %d rows)" % (kind, n), **d):
        return
    if not out.check(not view or ((W[n:] == 7.25).all() and (W[:, n:] == 7.25).all()), "outside", "the factorisation writes outside of the matrix", **d):
        return
    # partial pivoting: no multiplier above one
    m = np.abs(np.tril(F[:n, :n], -1))
    if not out.check(m.max() <= 1 + 1e-12, "multipliers", "a multiplier of %g" % m.max(), **d):
        return
    zero = [k for k in range(n) if F[k, k] == 0]
    if not zero:
        out.check(info == 0, "info", "the factorisation announces pivot %s as zero, none is" % info, **d)
    elif zero[-1] > 0:
        out.count("zero_pivot")
        out.check(info == zero[-1], "info", "the factorisation announces pivot %s as zero; it is %s" % (info, zero), **d)
    G, W = room()
    p2 = np.asarray(rec.call("dgeco", A=G, N=n))
    if not out.check(np.array_equal(G, F) and np.array_equal(p2[:n], piv[:n]), "dgeco", "dgeco and dgefa give different factors", **d):
        return
    if zero:
        return
    c = np.linalg.cond(A)
    if c > 1e13:
        out.count("near_singular")
        return
    rec.call("dgedi", A=G, N=n, IPVT=p2)
    out.count("inverted")
    I = G[:n, :n]
    e = max(np.abs(A @ I - np.eye(n)).max(), np.abs(I @ A - np.eye(n)).max()) if np.isfinite(I).all() else np.inf
    if not out.check(e <= 1e-12 * c * n * 10 + 1e-11, "inverse", "the inverse is wrong by %g (%s, %d rows, condition %.2g)" % (e, kind, n, c), A=A, inverse=I):
        return
    out.check(not view or ((W[n:] == 7.25).all() and (W[:, n:] == 7.25).all()), "outside", "the inversion writes outside of the matrix", **d)


def direct(job, out):
    rng = J.rng_of(job)
    for i in range(job["n"]):
        A, kind = matrix(rng)
        with np.errstate(all="ignore"):
            judge(out, A, kind, rng.random() < 0.3)
        if i == 0:
            out.sample(kind=kind, A=A)
        if out.nviol > 3:
            return


def network(job, out):
    """the matrices that network solutions invert"""
    seen = []

    def b(d):
        n = int(d["N"])
        if len(seen) < 400:
            seen.append(("used", np.array(d["A"], float)[:n, :n].copy()))

    rec.hook("dgeco", b)
    for _ in netw.drive(J.rng_of(job), out, job["nets"], 4, tm2=False):
        if len(seen) >= 400:
            break
    rec.unhook()
    for k, A in seen:
        judge(out, A, k)
        if out.nviol > 3:
            return


def run(job, out):
    rec.load_all()
    J.dispatch(job, out, dict(direct=direct, network=network))


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="network", s=s, nets=8 if q else 60) for s in J.seeds(rng, 4 if q else 8)]
    r += [dict(k="direct", s=s, n=400 if q else 4000) for s in J.seeds(rng, 6 if q else 24)]
    return r
