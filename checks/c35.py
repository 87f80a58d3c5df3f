"""every unit and line has its own reproducible random stream"""
import numpy as np

from lib import e2e, gen, jobs as J, rec, stat
from lib.common import tick

RULE = ("a case is one stream of one unit or line: its start, all states it passes through, and the outcomes drawn; the monitors look for states "
        "out of range, states seen before, deviations from uniformity and correlations (same unit at lags 1 to 5, other units and lines at the "
        "same and at the next draw); streams of whole runs are followed from draw to draw; non-trivial streams have at least 1000 draws")
REQUIRE = {"starts": 3000, "prefix": 40, "unit_streams": 150, "line_streams": 100, "pairs": 5000, "long_draws": 150000, "followed": 2000, "steps": 500000, "runs": 3, "same_start": 2}
ASSUMPTIONS = ["odd base seeds, and the one the program uses (its streams have a period of 2^23 draws: 957 years of hourly draws)",
               "statistics are judged at 6.5 standard deviations; the streams are deterministic, so a verdict is repeatable"]
Z = 6.5
TOP = 2**31


def start(seed, U, L):
    g, l = rec.call("seeder", JSEED=seed, NUNITS=U, NLINES=L)
    tick()
    return np.array(g), np.array(l)


def starts(job, out):
    rng = J.rng_of(job)
    seen = {}
    for k in range(job["n"]):
        seed = 123456 if k % 4 == 0 else int(rng.integers(1, TOP // 4)) * 2 + 1
        U, L = int(rng.integers(1, 500)), int(rng.integers(1, 100))
        g, l = start(seed, U, L)
        g2, l2 = start(seed, U, L)
        d = dict(seed=seed, U=U, L=L)
        if not out.check(len(g) >= U and len(l) >= L, "number", "%d and %d states for %d units and %d lines" % (len(g), len(l), U, L), **d):
            return
        out.count("starts", U + L)
        out.check(np.array_equal(g, g2) and np.array_equal(l, l2), "not-repeatable", "seeding twice gives different states", **d)
        s = np.concatenate([g[:U], l[:L]]).astype(np.int64)
        out.check((s > 0).all() and (s < TOP).all(), "range", "states outside of 1..2^31-1: %s" % s[(s <= 0) | (s >= TOP)][:4], **d)
        v, c = np.unique(s, return_counts=True)
        out.check((c == 1).all(), "shared", "%d states belong to more than one unit or line" % int((c > 1).sum()), **d)
        if seed > 1:
            n = start(seed ^ 1, 1, 1)[0]
            out.check(n[0] != g[0], "same-for-all", "base seeds %d and %d give the same state" % (seed, seed ^ 1), **d)
        # spread over the interval, not only distinct
        if U + L > 100:
            for q in (0.25, 0.5, 0.75):
                z = stat.z_count(int((s < q * TOP).sum()), len(s), q)
                out.check(abs(z) < Z, "clustered", "%d of %d states are below %g (%.1f sigma)" % (int((s < q * TOP).sum()), len(s), q, z), **d)
        # the state of a unit depends on the base seed and its position only
        u = int(rng.integers(1, U + 1))
        gp, _ = start(seed, u, 1)
        _, lp = start(seed, U, max(1, L // 2))
        out.count("prefix")
        out.check(np.array_equal(gp[:u], g[:u]), "position", "the states of the first %d of %d units depend on the number of units" % (u, U), **d)
        out.check(np.array_equal(lp[: max(1, L // 2)], l[: max(1, L // 2)]), "position", "the states of the first lines depend on the number of lines", **d)
        if seed in seen:
            m = min(U, len(seen[seed]))
            out.check(np.array_equal(seen[seed][:m], g[:m]), "history", "seeding depends on what was seeded before", **d)
        else:
            for s2, h in list(seen.items())[:5]:
                out.check(h[0] != g[0], "same-for-all", "base seeds %d and %d give the same state" % (s2, seed), **d)
            seen[seed] = g[:U]
        out.case(("start", seed, U))
        if out.nviol > 3:
            return
    out.sample(states=g[:4], lines=l[:4])


def draw_units(g, U, N, P):
    S, X = np.zeros((N, U), np.int64), np.zeros((N, U))
    f = rec.fn("gstate")
    one, half = np.full(U, 100.0), np.full(U, 0.5)
    with np.errstate(over="ignore"):
        for t in range(N):
            r = f(g, P, one, half, np.ones(U))
            S[t], X[t] = np.asarray(g)[:U], np.asarray(r[0], float).ravel()
    tick()
    return S, X


def draw_lines(l, L, N, P):
    S, X = np.zeros((N, L), np.int64), np.zeros((N, L))
    f = rec.fn("lstate")
    with np.errstate(over="ignore"):
        for t in range(N):
            X[t] = np.asarray(f(l, P))
            S[t] = np.asarray(l)[:L]
    tick()
    return S, X


def uniform(out, S, what, d):
    """each column: states within range, none seen before, uniform alone and in consecutive pairs, uncorrelated with itself"""
    N, U = S.shape
    bad = S[1:] != S[:-1] * 65539 % TOP
    out.count("steps", bad.size)
    if bad.any():
        t, i = np.argwhere(bad)[0]
        out.violation("generator", "%s %d: state %d follows %d, the generator gives %d" % (what, i, S[t + 1, i], S[t, i], S[t, i] * 65539 % TOP), **d)
    out.check((S > 0).all() and (S < TOP).all(), "range", "%s: a state outside of 1..2^31-1" % what, **d)
    V = S / TOP
    for i in range(U):
        if not out.check(len(np.unique(S[:, i])) == N, "repeats", "%s %d: a state comes again within %d draws" % (what, i, N), **d):
            return
        c = np.histogram(V[:, i], 32, (0, 1))[0]
        x2 = float(((c - N / 32) ** 2).sum() / (N / 32))
        z = (x2 - 31) / np.sqrt(62)
        out.check(abs(z) < 9, "not-uniform", "%s %d: states are not uniform (chi square %.1f of 31)" % (what, i, x2), **d)
        c = np.histogram2d(V[1:, i], V[:-1, i], 8, ((0, 1), (0, 1)))[0]
        x2 = float(((c - (N - 1) / 64) ** 2).sum() / ((N - 1) / 64))
        out.check(abs(x2 - 63) / np.sqrt(126) < 9, "pairs-not-uniform", "%s %d: consecutive states are not uniform in the square (chi square %.1f of 63)" % (what, i, x2), **d)
        for k in range(1, 6):
            z = stat.corr(V[k:, i], V[:-k, i])
            out.check(abs(z) < Z, "serial", "%s %d: states %d draws apart correlate (%.1f sigma)" % (what, i, k, z), **d)


def cross(out, A, B, what, d, same):
    """columns of A against those of B, at the same and at the next draw"""
    def std(X):
        s = X.std(axis=0)
        return (X - X.mean(axis=0)) / np.where(s > 0, s, 1)

    for lag in (0, 1):
        N = A.shape[0] - lag
        C = std(A[lag:]).T @ std(B[: N]) / np.sqrt(N)
        if same:
            C = C - np.diag(np.diag(C))
        out.count("pairs", C.size)
        z = float(np.abs(C).max(initial=0))
        if z > Z:
            i, j = np.unravel_index(np.abs(C).argmax(), C.shape)
            out.violation("dependent", "%s: %d and %d correlate at lag %d (%.1f sigma)" % (what, i, j, lag, z), **d)


def streams(job, out):
    rng = J.rng_of(job)
    for k in range(job["n"]):
        seed = 123456 if k == 0 else int(rng.integers(1, TOP // 4)) * 2 + 1
        U, L, N = int(rng.integers(2, job["max"])), int(rng.integers(2, job["max"] // 2 + 2)), job["draws"]
        d = dict(seed=seed, U=U, L=L)
        g, l = start(seed, U, L)
        P = np.tile([0.5, 0.75], (U, 1))
        q = np.tile(np.arange(1, 7).reshape(6, 1) / 6, (1, L))
        S, X = draw_units(g, U, N, P)
        T, Y = draw_lines(l, L, N, q)
        uniform(out, S, "unit", d)
        uniform(out, T, "line", d)
        cross(out, S / TOP, S / TOP, "units", d, True)
        cross(out, T / TOP, T / TOP, "lines", d, True)
        cross(out, S / TOP, T / TOP, "units and lines", d, False)
        # the outcomes themselves
        for i in range(U):
            for v, p in ((1.0, 0.5), (0.5, 0.25), (0.0, 0.25)):
                z = stat.z_count(int((X[:, i] == v).sum()), N, p)
                out.check(abs(z) < Z, "outcome", "unit %d is in state %g in %d of %d draws, probability %g" % (i, v, (X[:, i] == v).sum(), N, p), **d)
        for i in range(L):
            for v in range(1, 7):
                z = stat.z_count(int((Y[:, i] == v).sum()), N, 1 / 6)
                out.check(abs(z) < Z, "outcome", "line %d is in state %d in %d of %d draws, probability 1/6" % (i, v, (Y[:, i] == v).sum(), N), **d)
        cross(out, X, X, "outcomes of units", d, True)
        cross(out, Y, Y, "outcomes of lines", d, True)
        # a unit's stream is its own: the same with fewer neighbours
        u = int(rng.integers(1, U))
        g2, _ = start(seed, U, L)
        S2, X2 = draw_units(g2[:u].copy(), u, min(N, 300), P[:u])
        out.check(np.array_equal(S2, S[: len(S2), :u]), "not-own", "the stream of a unit depends on the other units drawn", **d)
        out.count("unit_streams", U)
        out.count("line_streams", L)
        for i in range(U):
            out.case(("u", seed, i) if N >= 1000 else None)
        for i in range(L):
            out.case(("l", seed, U, i) if N >= 1000 else None)
        out.sample(seed=seed, first=S[:3, 0], outcomes=X[:3, 0])
        if out.nviol > 3:
            return


def long(job, out):
    """one stream over a long history"""
    pos = job["pos"]
    g, l = start(123456, pos + 1, pos + 1)
    N = job["draws"]
    if job["lines"]:
        S, X = np.zeros(N, np.int64), None
        f = rec.fn("lstate")
        a, P = l[pos: pos + 1].copy(), np.array([[0.5], [0.6], [0.7], [0.8], [0.9], [1.0]])
        run = lambda: f(a, P)
    else:
        f = rec.fn("gstate")
        S = np.zeros(N, np.int64)
        a, P, o = g[pos: pos + 1].copy(), np.array([[0.5, 0.75]]), np.ones(1)
        run = lambda: f(a, P, o, o, o)
    with np.errstate(over="ignore"):
        for t in range(N):
            run()
            S[t] = a[0]
            if t % 20000 == 0:
                tick()
    out.count("long_draws", N)
    out.case(("long", job["lines"], pos))
    uniform(out, S.reshape(-1, 1), "line" if job["lines"] else "unit", dict(position=pos))


def follow(job, out):
    """the streams of a whole run"""
    case = J.case_of(job)
    U, L = len(case["units"]), len(case["lines"])
    h = []

    def on(f, key, n):
        last = []

        def b(d):
            s = np.array(d[key])[:n].copy()
            if last:
                out.count("followed")
                out.check(np.array_equal(s, last[0]), "stream-broken", "%s: a draw does not start from the state the last one left" % f)
            else:
                h.append((f, s))
            del last[:]

        def a(d, r):
            last.append(np.array(d[key])[:n].copy())
            h.append((f, last[0]))

        rec.hook(f, b, a)

    def extra(T, cur, log):
        on("gstate", "IGSEED", U)
        on("lstate", "ILSEED", L)

    e2e.simulate(case, tm2=False, draws=False, annual=False, bound=J.bound_of(case), extra=extra)
    out.count("runs")
    g, l = start(case["mc"]["SEED"], U, L)
    for f, s, k in (("gstate", g, U), ("lstate", l, L)):
        x = [v for n, v in h if n == f]
        if not x or not k:
            continue
        out.count("same_start")
        out.check(np.array_equal(x[0], s[:k]), "start", "%s: the run starts from other states than seeding gives" % f)
        A = np.array(x[1:]).astype(np.int64)
        out.check(np.array_equal(A[1:], A[:-1] * 65539 % TOP) and np.array_equal(A[0], np.asarray(x[0], np.int64) * 65539 % TOP), "generator", "%s: the states of the run do not follow the generator" % f)
        for i in range(k):
            out.check(len(np.unique(A[:, i])) == len(A), "repeats", "%s %d: a state comes again within %d draws of a run" % (f, i, len(A)))
            out.case((f, job["s"], i) if len(A) >= 1000 else None)


def run(job, out):
    rec.load_all()
    J.dispatch(job, out, dict(starts=starts, streams=streams, long=long, follow=follow))


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="long", pos=p, lines=b, draws=(60000 if q else 2000000) // (3 if b else 1)) for p, b in ((0, 0), (1, 0), (17, 0), (0, 1), (3, 1))]
    r += [dict(k="follow", s=s, case=dict(n_area=2, units_per_area=3, stress=0.5, mc=dict(STEP=24 if i % 2 else 1, FREQ=1 if i % 2 else [1, 24][i // 2 % 2], FIN=(5 if i % 2 else 1) * (1 if q else 3), CVT=1e-9)), tw=[])
          for i, s in enumerate(J.seeds(rng, 4 if q else 16))]
    r += [dict(k="streams", s=s, n=2 if q else 4, max=m, draws=d) for m, d in ((30, 3000), (60, 2500)) for s in J.seeds(rng, 3 if q else 16)]
    r += [dict(k="starts", s=s, n=25 if q else 300) for s in J.seeds(rng, 2 if q else 8)]
    return r
