"""the samplers for the states of many lines at once"""
import importlib

import numpy as np

from lib import jobs as J, stat
from lib.common import HookMissing, tick

RULE = ("a case is one draw of the states of many lines by one of the three samplers of the library; every state must be one of the six and one "
        "that can occur; the counts of the states over many draws, and those of pairs of lines and of consecutive draws, are compared with the given "
        "probabilities; draws with the same seed are repeated, arguments compared before and after, wrong arguments must be refused")
REQUIRE = {"draws": 3000, "states": 100000, "stat": 1000, "never": 200, "refused": 100, "repeated": 100, "fresh": 20}
Z = 6.5
NAMES = ("lstate", "lstate_original", "discrete_prob_gen")


def samplers():
    try:
        mod = importlib.import_module("reliabilityassessment.monte_carlo.line_prob_sampling")
        return {n: getattr(mod, n) for n in NAMES}
    except (ImportError, AttributeError) as e:
        raise HookMissing("line_prob_sampling: %s" % e)


def probs(rng, L):
    p = rng.dirichlet(np.ones(6) * rng.choice([0.5, 1, 5]), L)
    for i in range(L):
        r = rng.random()
        if r < 0.15:
            p[i] = np.eye(6)[int(rng.integers(6))]
        elif r < 0.6:  # as on the cards, with states that never occur
            k = rng.integers(0, 30, 6) * (rng.random(6) < 0.6)
            k[int(rng.integers(6))] += 1
            p[i] = np.round(k / k.sum(), 3)
            p[i, p[i].argmax()] += 1 - p[i].sum()
            p[i] = np.round(p[i], 3)
    return p


def refuse(out, what, f, *a, kind=Exception):
    try:
        r = f(*a)
    except kind:
        out.count("refused")
    except Exception as e:
        out.violation("refusal", "%s: %s instead of %s" % (what, type(e).__name__, kind.__name__))
    else:
        out.violation("refusal", "%s is accepted, states %s" % (what, np.asarray(r)[:6]))


def run(job, out):
    rng = J.rng_of(job)
    S = samplers()
    for it in range(job["n"]):
        for name in NAMES:
            f = S[name]
            L = int(rng.choice([1, 2, 5, 20, 60]))
            p = probs(rng, L)
            if name != "lstate":
                p[:] = p[0]
            C = np.add.accumulate(p, axis=1)
            args = (C,) if name == "lstate" else (L, C[0])
            N = max(60, job["draws"] // L)
            s0 = int(rng.integers(1, 2**30))
            D = np.zeros((N, L), int)
            for k in range(N):
                tick()
                keep = args[-1].copy()
                st = np.asarray(f(*args, s0 + k))
                if st.shape != (L,) or not (st == np.floor(st)).all() or st.min() < 1 or st.max() > 6:
                    out.violation("range", "%s: states %s of %d lines" % (name, st, L))
                    return
                if (keep != args[-1]).any():
                    out.violation("input-changed", "%s changes the probabilities" % name)
                    return
                D[k] = st
            out.count("draws", N)
            out.count("states", N * L)
            out.case((name, L, s0), k=N)
            never = p <= 0
            out.count("never", int(never.sum()))
            got = np.stack([(D == s + 1).sum(axis=0) for s in range(6)], axis=1)
            bad = never & (got > 0)
            if bad.any():
                i, s = (int(x[0]) for x in np.nonzero(bad))
                out.violation("impossible", "%s: state %d of line %d has probability 0 and occurs %d times in %d draws" % (name, s + 1, i, got[i, s], N))
            for i in range(L):
                for s in range(6):
                    out.count("stat")
                    z = stat.z_count(int(got[i, s]), N, min(max(float(p[i, s]), 0.0), 1.0))
                    out.check(abs(z) < Z, "frequency", "%s: state %d of line %d of %d with probability %g: %d of %d draws (%.1f sigma)" % (
                        name, s + 1, i, L, p[i, s], got[i, s], N, z))
            if name != "lstate":  # all lines alike: also counted together
                for s in range(6):
                    z = stat.z_count(int(got[:, s].sum()), N * L, min(max(float(p[0, s]), 0.0), 1.0))
                    out.check(abs(z) < Z, "frequency", "%s: state %d with probability %g: %d of %d (%.1f sigma)" % (
                        name, s + 1, p[0, s], got[:, s].sum(), N * L, z))
            if N >= 200:
                for i in range(min(L, 6)):
                    z = stat.corr(D[1:, i], D[:-1, i])
                    out.check(abs(z) < Z, "serial", "%s: consecutive draws of a line correlate (%.1f sigma)" % (name, z))
                    for b in range(i + 1, min(L, 6)):
                        z = stat.corr(D[:, i], D[:, b])
                        out.check(abs(z) < Z, "dependent", "%s: lines %d and %d correlate (%.1f sigma)" % (name, i, b, z))
            # the seed decides
            for k in rng.integers(0, N, 3):
                again = np.asarray(f(*args, s0 + int(k)))
                out.count("repeated")
                out.check((again == D[int(k)]).all(), "seed", "%s: two draws with the seed %d differ" % (name, s0 + k))
            # without a seed every draw is a new one: 60 lines, no state with more than 0.8
            q = np.array([[0.2, 0.2, 0.2, 0.2, 0.1, 0.1]] * 200)
            c = np.add.accumulate(q, axis=1)
            c[:, -1] = 1.0
            a2 = (c,) if name == "lstate" else (200, c[0])
            x, y = np.asarray(f(*a2)), np.asarray(f(*a2))
            out.count("fresh")
            out.check((x != y).any(), "fresh", "%s: two draws of 200 lines without a seed are the same" % name)
            # wrong arguments
            if name == "lstate":
                refuse(out, "lstate with a list", f, C.tolist(), kind=TypeError)
            else:
                refuse(out, name + " with a list", f, L, C[0].tolist(), kind=TypeError)
                refuse(out, name + " with 2.5 lines", f, 2.5, C[0], kind=TypeError)
                refuse(out, name + " with '3' lines", f, "3", C[0], kind=TypeError)
                refuse(out, name + " without lines", f, 0, C[0], kind=ValueError)
                refuse(out, name + " with -4 lines", f, -int(rng.integers(1, 9)), C[0], kind=ValueError)
                e = float(rng.choice([0.9, 1.1, 0.999, 1.001, 0.0, 6.0, 0.5]))
                refuse(out, "%s with probabilities that add up to %g" % (name, e), f, L, C[0] * e)
        if out.nviol > 5:
            return
    out.sample(p=p[0], counts=got[0], draws=N)


def jobs(tier, rng):
    q = tier == "quick"
    return [dict(s=s, n=4 if q else 30, draws=4000 if q else 30000) for s in J.seeds(rng, 6 if q else 24)]
