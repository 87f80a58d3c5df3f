"""the capacity outage table is the exact convolution of the units"""
import itertools

import numpy as np

from lib import jobs as J, rec
from lib.common import tick

RULE = ("a case is one set of two- and three-state units; the table returned is compared level by level with the distribution of the capacity "
        "on outage that direct convolution of all unit states gives (small sets also by enumerating every combination), for one unit added at a "
        "time and for whole sets, in any order; non-trivial sets have at least two units and ten levels")
REQUIRE = {"pmlolp": 200, "gsm": 800, "enumerated": 60, "levels": 10000, "permuted": 60, "three_state": 60, "cut": 10, "seldom_full": 20}
CUT = 1e-8
ASSUMPTIONS = ["units of 10 MW or more with a chance of being fully available above 1e-6 (smaller ones are left out by the rounding)"]


def up10(x):
    """to the next multiple of 10 MW, half and more upwards"""
    return int((x + 5.5) // 1) // 10 * 10


def exceed(units, size):
    """P(outage >= 10 k MW) for k = 0..size-1 by convolution; units: (KT, KP, P1, P2, P3)"""
    p = np.zeros(size)
    p[0] = 1.0
    for kt, kp, p1, p2, p3 in units:
        q = p * p1
        for k, w in ((kp // 10, p2), (kt // 10, p3)):
            if w:
                q[k:] += p[: size - k] * w
        p = q
    return p[::-1].cumsum()[::-1]


def enumerate_all(units):
    d = {}
    for s in itertools.product(range(3), repeat=len(units)):
        w, c = 1.0, 0
        for (kt, kp, p1, p2, p3), k in zip(units, s):
            w *= (p1, p2, p3)[k]
            c += (0, kp, kt)[k]
        if w:
            d[c] = d.get(c, 0.0) + w
    return d


def compare(out, n, KA, PA, units, what):
    """the first n entries of the table"""
    KA, PA = np.asarray(KA, float)[: n], np.asarray(PA, float)[: n]
    size = sum(u[0] for u in units) // 10 + 2
    E = exceed(units, size)
    tol = CUT * (len(units) + 2) + 1e-10
    d = dict(units=units, KA=KA, PA=PA)
    if not out.check(n >= 1 and KA[0] == 0 and abs(PA[0] - 1) < 1e-9, "first", "%s: the table starts with %s MW %s" % (what, KA[:1], PA[:1]), **d):
        return False
    if not out.check((np.diff(KA) > 0).all() and (np.mod(KA, 10) == 0).all(), "levels", "%s: the outage levels are %s" % (what, KA[:30].tolist()), **d):
        return False
    k = (KA // 10).astype(int)
    inside = k < size
    e = np.where(inside, E[np.minimum(k, size - 1)], 0.0)
    out.count("levels", n)
    bad = np.abs(PA - e) > tol
    if bad.any():
        i = int(np.argmax(np.abs(PA - e)))
        out.violation("probability", "%s: at least %d MW out has probability %.10f, the table says %.10f" % (what, KA[i], e[i], PA[i]), **d)
        return False
    # every level at which the distribution steps down is in the table, down to the cut-off
    step = np.nonzero(E[:-1] - E[1:] > 10 * tol)[0] * 10
    step = step[E[step // 10] > 10 * tol]
    miss = set(step.tolist()) - set(KA.astype(int).tolist())
    if not out.check(not miss, "missing", "%s: the outage of %s MW is missing in the table" % (what, sorted(miss)[:5]), **d):
        return False
    out.count("cut", int(E[-2] < CUT / 10 and n < size))
    return True


def probs(rng, three):
    if rng.random() < 0.06:  # hardly ever fully available
        p1 = float(rng.choice([5e-6, 1e-4, 1e-3, 5e-3, 0.02]))
        p2 = 0.0 if not three else float(rng.random()) * (1 - p1)
        return p2, 1 - p1 - p2
    p3 = float(rng.choice([0.0, 0.01, 0.04, 0.1, 0.3])) if rng.random() < 0.5 else float(rng.random() * 0.4)
    p2 = 0.0 if not three else float(rng.random() * 0.4)
    return p2, p3


def run(job, out):
    rec.load_all()
    rng = J.rng_of(job)
    for _ in range(job["n"]):
        n = int(rng.integers(1, job["max"] + 1))
        three = rng.random(n) < rng.choice([0, 0.3, 1])
        cap = rng.integers(10, int(rng.choice([31, 120, 500])), n).astype(float)
        if rng.random() < 0.4:
            cap = np.round(cap / 10) * 10
        pr = np.array([probs(rng, t) for t in three]).reshape(n, 2)
        lost = np.where(three, np.round(rng.random(n), 2), 0.0)
        for i in range(n):
            if abs(up10(cap[i]) * lost[i] % 10 - 4.5) < 1e-6:
                lost[i] += 0.003  # no ties of the rounding
        RD = np.zeros((n + 3, 3))
        RD[:n, :2], RD[:n, 2] = pr, lost
        units = []
        for i in range(n):
            kt = up10(cap[i])
            units.append((kt, up10(kt * lost[i]), 1 - pr[i].sum(), pr[i, 0], pr[i, 1]))
        C = np.zeros(n + 3)
        C[:n] = cap
        C[n:] = 70.0  # beyond the number of units: not part of the set
        RD[n:] = 0.3
        N, KA, PA = rec.call("pmlolp", CAPLOS=C.copy(), RD=RD.copy(), NGU=n)
        tick()
        out.count("pmlolp")
        out.count("three_state", int(three.any()))
        out.count("seldom_full", int((pr.sum(axis=1) > 0.97).any()))
        out.case(("p", cap.tolist(), pr.tolist()) if n > 1 and N > 9 else None)
        out.sample(capacities=cap, probabilities=pr, lost=lost)
        if not compare(out, int(N), KA, PA, units, "pmlolp"):
            return
        if n <= 7:
            d = enumerate_all(units)
            out.count("enumerated")
            for c, p in zip(np.asarray(KA)[: int(N)], np.asarray(PA)[: int(N)]):
                e = sum(w for k, w in d.items() if k >= c)
                if not out.check(abs(e - p) < CUT * 12, "enumeration", "at least %d MW out: %.10f by enumeration, %.10f in the table" % (c, e, p), units=units):
                    return
        if n > 1:
            o = rng.permutation(n)
            C[:n], RD[:n] = cap[o], np.column_stack([pr, lost])[o]
            N2, KA2, PA2 = rec.call("pmlolp", CAPLOS=C.copy(), RD=RD.copy(), NGU=n)
            out.count("permuted")
            if not compare(out, int(N2), KA2, PA2, units, "pmlolp in another order"):
                return
        # one unit after the other
        N, K, P = 1, np.zeros(5000), np.zeros(5000)
        P[0] = 1.0
        for i, (kt, kp, p1, p2, p3) in enumerate(units):
            N = rec.call("gsm", N=N, KT=kt, KP=kp, P1=p1, P2=p2, P3=p3, PA=P, KA=K)
            out.count("gsm")
            if not compare(out, int(N), K, P, units[: i + 1], "unit %d added" % i):
                return


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(n=25 if q else 250, max=m, s=s) for m in (6, 12, 30) for s in J.seeds(rng, 4 if q else 16)]
    return r
