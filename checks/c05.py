"""generator states follow the input outage rates"""
import numpy as np

from lib import jobs as J, prep, rec, stat

RULE = ("a case is one draw of the states of all units: each state is compared with the one that the unit's random "
        "number and input rates give; the frequencies of states, of pairs of units and of consecutive draws are "
        "compared with the input probabilities; non-trivial draws have units in different states")
REQUIRE = {"gen_draws": 15000, "direct_draws": 100000, "stat_units": 30, "loss": 10}
TAGS = {"genstate", "capacity"}
Z = 6.0  # standard deviations; the streams are fixed, the checks are repeatable


def direct(job, out):
    """the draw itself: states, availability and frequencies for rates of every kind"""
    rng = J.rng_of(job)
    gstate, seeder = rec.fn("gstate"), rec.fn("seeder")
    for it in range(job["n"]):
        U = int(rng.integers(2, 40))
        base = int(rng.choice([123456, 123456, 345237, 1234567, 7654321]))
        SEED, _ = seeder(base, U, 3)
        kind = rng.integers(0, 3, U)
        FOR = np.where(kind == 0, np.round(rng.uniform(0, 0.15, U), 3), np.where(kind == 1, np.round(rng.uniform(0, 0.5, U), 2), rng.choice([0, 1.0], U)))
        dfor = np.where(kind == 2, 0, np.round(rng.uniform(0, 0.5, U), 2)) * (rng.random(U) < 0.7)
        P = np.column_stack([1 - (dfor + FOR), 1 - FOR])
        der = 1 - rng.integers(0, 101, U) / 100.0
        N = job["draws"]
        S = np.zeros((N, U), int)
        full = N // 3
        for k in range(N):
            rate = rng.integers(0, 900, U).astype(float) if k < full else np.full(U, 100.0)
            pl = (rng.random(U) < 0.8).astype(float) if k < full else np.ones(U)
            args = (P.copy(), rate.copy(), der.copy(), pl.copy())
            r = gstate(SEED, *args)
            pct, av = np.asarray(r[0], float).ravel(), np.asarray(r[1], float).ravel()
            ok = np.abs(pct - 1) < 1e-12
            dd = np.abs(pct - der) < 1e-12
            zz = pct == 0
            if not (ok | dd | zz).all():
                i = int(np.nonzero(~(ok | dd | zz))[0][0])
                out.violation("state-value", "a unit with derated output %g delivers %g of its rating" % (der[i], pct[i]))
                return
            if np.abs(av - pct * rate * pl).max() > 1e-9:
                i = int(np.abs(av - pct * rate * pl).argmax())
                out.violation("available", "state %g, rating %g, in service %g: available %g" % (pct[i], rate[i], pl[i], av[i]))
                return
            for a, b, nm in zip(args, (P, rate, der, pl), ("probabilities", "ratings", "derating", "outages")):
                if (a != b).any():
                    out.violation("input-changed", "drawing states changes the %s of the units" % nm)
                    return
            u = np.asarray(SEED)[:U].astype(float) * 0.4656613e-9
            near = (np.abs(u - P[:, 0]) < 1e-9) | (np.abs(u - P[:, 1]) < 1e-9)
            exp = np.where(u < P[:, 0], 1.0, np.where(u < P[:, 1], der, 0.0))
            bad = (np.abs(exp - pct) > 1e-12) & ~near
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                out.violation("gen-state", "random number %.9f, cumulative rates %s: state %g instead of %g" % (u[i], P[i], pct[i], exp[i]))
                return
            S[k] = np.where(u < P[:, 0], 2, np.where(u < P[:, 1], 1, 0))
        out.count("direct_draws", N * U)
        out.case((U, base, round(float(FOR.sum()), 6)), k=N)
        for i in range(U):
            out.count("stat_units")
            for s, p in ((2, P[i, 0]), (1, P[i, 1] - P[i, 0]), (0, 1 - P[i, 1])):
                k = int((S[:, i] == s).sum())
                z = stat.z_count(k, N, min(max(float(p), 0.0), 1.0))
                out.check(abs(z) < Z, "frequency", "state %d of a unit with rates %s: %d of %d draws (%.1f sigma)" % (s, P[i], k, N, z))
        act = [i for i in range(U) if 0.03 < P[i, 0] < 0.97]
        for a in range(len(act)):
            x = S[:, act[a]] == 2
            z = stat.corr(x[1:], x[:-1])
            out.check(abs(z) < Z, "serial", "consecutive states of unit %d correlate (%.1f sigma)" % (act[a], z))
            for b in range(a + 1, min(a + 6, len(act))):
                z = stat.corr(x, S[:, act[b]] == 2)
                out.count("stat_pairs")
                out.check(abs(z) < Z, "dependent", "states of units %d and %d correlate (%.1f sigma)" % (act[a], act[b], z))




def run(job, out):
    if job["k"] == "direct":
        return direct(job, out)
    if job["k"] == "prep":
        return prep.job(job, out, ["units"], J)
    sh, T, c = J.shadow_run(job, out, TAGS | {"decision", "cadence"})
    out.sample(case=J.describe(c), rates=[[u["FOR"], u["dfor"], u["der"]] for u in c["units"]][:5])


def jobs(tier, rng):
    q = tier == "quick"
    kw = dict(lfu=False, n_area=2)
    r = [dict(k="direct", s=s, n=2 if q else 30, draws=1500 if q else 5000) for s in J.seeds(rng, 4 if q else 16)]
    r += [dict(k="prep", s=s, n=8 if q else 100, tw=["rates"]) for s in J.seeds(rng, 1 if q else 6)]
    r += J.hourly(rng, 2 if q else 10, ["rates"], years=1, units_per_area=5, stress=0.3, **kw)
    r += J.daily(rng, 4 if q else 24, ["rates"], years=4 if q else 10, units_per_area=5, stress=0.4, mc=dict(CVT=1e-9), **kw)
    r += J.daily(rng, 2 if q else 12, ["season", "outages"], years=4 if q else 10, units_per_area=6, stress=0.9, mc=dict(CVT=1e-9), **kw)
    r += J.daily(rng, 1 if q else 4, ["rates", "fractions"], years=2, units_per_area=15, stress=0.4, n_area=9, lfu=False, mc=dict(CVT=1e-9))
    r += J.daily(rng, 1 if q else 6, ["rates", "fractions"], years=40 if q else 90, units_per_area=4, stress=0.6, n_area=1, lfu=False, mc=dict(CVT=1e-9))
    return r
