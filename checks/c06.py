"""line states follow the input probabilities, and a line has exactly the data of its state"""
import numpy as np

from lib import jobs as J, prep, rec, stat

RULE = ("a case is one draw of the states of all lines: each state is compared with the one that the line's random "
        "number and input probabilities give, frequencies and correlations with the input; in every network solution "
        "admittances and capacities are compared with those of the states; non-trivial when lines are in other "
        "states than the first")
REQUIRE = {"line_draws": 5000, "direct_draws": 100000, "wide_draws": 3000, "stat_lines": 30, "network_lines": 2000, "network_outages": 200}
TAGS = {"linestate"}
Z = 6.0


def direct(job, out):
    rng = J.rng_of(job)
    lstate, seeder = rec.fn("lstate"), rec.fn("seeder")
    for it in range(job["n"]):
        L = int(rng.integers(1, 30)) if not job.get("wide") else int(rng.integers(60, 260))
        base = int(rng.choice([123456, 123456, 345237, 1234567, 7654321]))
        _, SEED = seeder(base, int(rng.integers(1, 60)), L)
        p = rng.dirichlet(np.ones(6) * 0.7, L)
        p[rng.random(L) < 0.2] = np.eye(6)[int(rng.integers(6))]
        for i in range(L):  # states that never occur, probabilities as on the cards
            if rng.random() < 0.5:
                k = rng.integers(0, 30, 6) * (rng.random(6) < 0.5)
                k[int(rng.integers(6))] += 1
                p[i] = np.round(k / k.sum(), 3)
                p[i, p[i].argmax()] += 1 - p[i].sum()
                p[i] = np.round(p[i], 3)
        C = np.add.accumulate(p.T)
        N = job["draws"]
        S = np.zeros((N, L), int)
        for k in range(N):
            arg = C.copy()
            st = np.asarray(lstate(SEED, arg)).ravel().astype(int)
            if st.shape != (L,) or st.min() < 1 or st.max() > 6:
                out.violation("line-state-range", "line states %s" % st)
                return
            if (arg != C).any():
                out.violation("input-changed", "drawing states changes the probabilities of the lines")
                return
            u = np.asarray(SEED)[:L].astype(float) * 0.4656613e-9
            near = (np.abs(u[None] - C) < 1e-9).any(axis=0)
            exp = 1 + (u[None] > C[:5]).sum(axis=0)
            bad = (st != exp) & ~near
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                out.violation("line-state", "random number %.9f, cumulative probabilities %s: state %d instead of %d" % (u[i], C[:, i], st[i], exp[i]))
                return
            S[k] = st
        out.count("direct_draws", N * L)
        out.count("wide_draws", N * (L > 50))
        out.case((L, base, round(float(p[0, 0]), 9)), k=N)
        for i in range(L):
            out.count("stat_lines")
            for s in range(6):
                k = int((S[:, i] == s + 1).sum())
                z = stat.z_count(k, N, min(max(float(p[i, s]), 0.0), 1.0))
                out.check(abs(z) < Z, "frequency", "state %d of a line with probability %g: %d of %d draws (%.1f sigma)" % (s + 1, p[i, s], k, N, z))
            z = stat.corr(S[1:, i], S[:-1, i])
            out.check(abs(z) < Z, "serial", "consecutive states of a line correlate (%.1f sigma)" % z)
            for b in range(i + 1, min(i + 5, L)):
                z = stat.corr(S[:, i], S[:, b])
                out.count("stat_pairs")
                out.check(abs(z) < Z, "dependent", "states of lines %d and %d correlate (%.1f sigma)" % (i, b, z))


class Net:
    """the network data used in each solution"""

    def __init__(self, sh, out):
        self.sh, self.out = sh, out

    def __call__(self, ev, T):
        self.sh(ev, T)
        m = self.sh.m
        for c in ev.get("transm"):
            if not c["tm2"] or self.sh.state is None:
                continue
            st = self.sh.state["ln"] - 1
            k = np.arange(m.L)
            b = np.asarray(c["tm2"][0]["BLP"], float)
            self.out.count("network_lines", m.L)
            self.out.count("network_outages", int((st > 0).sum()))
            for col, exp, nm in ((0, m.adm, "admittance"), (1, m.fwd, "forward capacity"), (2, m.bwd, "backward capacity")):
                e = exp[k, st]
                if np.abs(b[:, col] - e).max(initial=0) > 1e-9:
                    i = int(np.abs(b[:, col] - e).argmax())
                    self.out.violation("line-data", "line %d in state %d is used with %s %g, input says %g" % (i, st[i] + 1, nm, b[i, col], e[i]))
            if len(c["tm2"]) > 1:
                b2 = np.asarray(c["tm2"][1]["BLP"], float)
                if np.abs(b2[:, 0] - m.adm[k, st]).max(initial=0) > 1e-9:
                    self.out.violation("line-data", "second step uses admittances %s for states %s" % (b2[:, 0], st + 1))
                if c["NLS"] == 0 and (np.abs(b2[:, 1] - m.fwd[k, st]).max() > 1e-9 or np.abs(b2[:, 2] - m.bwd[k, st]).max() > 1e-9):
                    self.out.violation("line-data", "second step uses capacities %s for states %s" % (b2[:, 1:].tolist(), st + 1))


def run(job, out):
    if job["k"] == "direct":
        return direct(job, out)
    if job["k"] == "prep":
        return prep.job(job, out, ["lines"], J)
    from lib.shadow import Shadow
    from lib import e2e

    case = J.case_of(job)
    sh = Shadow(case, out, TAGS | {"assist"})
    e2e.simulate(case, on_event=Net(sh, out), tm2=True, bound=J.bound_of(case))
    out.sample(case=J.describe(case), states=case["lines"][0]["st"] if case["lines"] else None)


def jobs(tier, rng):
    q = tier == "quick"
    kw = dict(lfu=False)
    tw = ["linerates", "linestates"]
    r = [dict(k="direct", s=s, n=2 if q else 30, draws=1500 if q else 5000) for s in J.seeds(rng, 4 if q else 16)]
    r += [dict(k="direct", s=s, n=2 if q else 15, draws=1500 if q else 5000, wide=1) for s in J.seeds(rng, 1 if q else 4)]
    r += [dict(k="prep", s=s, n=8 if q else 100, tw=tw) for s in J.seeds(rng, 1 if q else 6)]
    r += J.hourly(rng, 2 if q else 10, tw, years=1, n_area=3, units_per_area=3, stress=0.75, **kw)
    r += J.daily(rng, 6 if q else 32, tw, years=3 if q else 10, units_per_area=4, stress=0.9, mc=dict(CVT=1e-9), **kw)
    return r
