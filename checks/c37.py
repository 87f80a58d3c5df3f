"""the simulated indices estimate the exact expectation"""
import itertools

import numpy as np

from lib import e2e, jobs as J
from lib.common import Stop
from lib.shadow import Model

RULE = ("a case is one index (loss hours or energy, hourly or at the peak, of an area or the pool, by cause) of one system; its sum over the years "
        "simulated is compared with the exact expectation over all states of units and lines, within 6.5 standard deviations; non-trivial when "
        "at least 30 losses are expected")
REQUIRE = {"indices": 250, "expected_losses": 20000, "one_area": 4, "two_areas": 6, "more_areas": 3, "seasonal": 3, "outages": 3, "tiers5": 4, "daily_draws": 3,
           "hourly": 4, "sharing": 1, "limited": 1}
ASSUMPTIONS = ["6.5 standard deviations; the random streams are deterministic"]
Z = 6.5


def states(m, units, day):
    """{capacity: probability} of some units on a day"""
    d = {0.0: 1.0}
    s = m.season[day * 24]
    out = m.weekmask(day * 24)
    for u in units:
        c = m.cap[u, s] * (0.0 if out[u] else 1.0)
        p = [(c, m.pfull[u]), (c * m.der[u], m.pder[u] - m.pfull[u]), (0.0, 1 - m.pder[u])]
        n = {}
        for (x, px), (y, py) in itertools.product(d.items(), p):
            if py > 0:
                k = round(x + y, 9)
                n[k] = n.get(k, 0.0) + px * py
        d = n
    k = sorted(d)
    return np.array(k), np.array([d[x] for x in k])


def exact(m, ls):
    """{index: [expectation, variance, slack]} of one year, and the expected number of losses"""
    A, nf = m.A, m.nf
    w = np.array([0.0668, 0.2417, 0.383, 0.2417, 0.0668]) if nf == 5 else np.ones(1)
    acc = {}
    fewest = {}
    cache = {}
    block = m.freq == 24 or m.step == 24
    wide = A > 2  # lines that never limit
    bounds = ls == 0 and A == 2 or wide

    def put(key, p, x, base, slack=None, count=None):
        """x: [state, hour] weighted value of the index"""
        a = acc.setdefault(key, np.zeros(3))
        y = x.sum(axis=1, keepdims=True) if block else x
        e = p @ y
        a[0] += e.sum()
        a[1] += (p @ y ** 2 - e ** 2).sum()
        if slack is not None:
            a[2] += (p @ slack).sum()
        if count is not None:
            fewest[key] = fewest.get(key, 0.0) + (p @ count).sum()

    for day in range(365):
        key = (int(m.season[day * 24]), m.weekmask(day * 24).tobytes())
        if key not in cache:
            parts = [states(m, np.nonzero(m.loc == i)[0], day) for i in range(A)]
            if A == 1:
                cache[key] = (parts[0][1], parts[0][0][:, None], None)
            elif wide:
                g = [x.ravel() for x in np.meshgrid(*[np.arange(len(c)) for c, _ in parts], indexing="ij")]
                cache[key] = (np.prod([p[x] for (c, p), x in zip(parts, g)], axis=0), np.column_stack([c[x] for (c, p), x in zip(parts, g)]), None)
            else:
                (c1, p1), (c2, p2) = parts
                pl = m.lprob[0]
                k = np.nonzero(pl > 0)[0]
                i, j, l = (x.ravel() for x in np.meshgrid(np.arange(len(c1)), np.arange(len(c2)), k, indexing="ij"))
                f, b = m.fwd[0][l], m.bwd[0][l]
                if m.lfrom[0] != 0:
                    f, b = b, f
                lim = min(m.limit)
                cache[key] = (p1[i] * p2[j] * pl[l], np.column_stack([c1[i], c2[j]]), np.column_stack([f, b, np.minimum(f, lim), np.minimum(b, lim)]))
        p, cap, tr = cache[key]
        pk = int(m.poolh[day])
        hours = [pk] if m.step == 24 else list(range(24 * day, 24 * day + 24))
        load = m.load[:, hours]
        q = {}
        for t in range(nf):
            mg = cap[:, :, None] - (load * m.fac[:, t][:, None])[None]
            mg = np.where(np.abs(mg - np.round(mg)) < 1e-9, np.round(mg), mg)
            M = np.trunc(mg)
            loss = np.where(M < 0, -M, 0.0)
            rest = M.copy()
            if A == 2:
                for a, b, line, c in ((0, 1, tr[:, 1], tr[:, 3]), (1, 0, tr[:, 0], tr[:, 2])):
                    one = (M[:, a] < 0) & (M[:, b] >= 0)
                    x = np.minimum(mg[:, b].clip(0), c[:, None])
                    L = -mg[:, a] - x
                    L = np.where(np.abs(L - np.round(L)) < 1e-9, np.round(L), L)
                    # a neighbour that can give all gives it, whatever the limit of the area
                    L = np.where(np.minimum(M[:, b], np.trunc(line)[:, None]) >= -M[:, a], 0.0, L)
                    q.setdefault("real", []).append((t, np.where(one, L.clip(0), 0.0)))
                    loss[:, a] = np.where(one, np.trunc(L.clip(0)), loss[:, a])
                    y = mg[:, b] - x
                    y = np.where(np.abs(y - np.round(y)) < 1e-9, np.round(y), y)
                    rest[:, a] = np.where(one, -loss[:, a], rest[:, a])
                    rest[:, b] = np.where(one, np.trunc(y), rest[:, b])
            if bounds:
                # shared losses are rounded area by area: between the sum less one MW per area and the sum
                both = (M < 0).all(axis=1)
                if wide:
                    L = np.where((M < 0).any(axis=1), -mg.sum(axis=1), 0.0)
                    L = np.where(np.abs(L - np.round(L)) < 1e-9, np.round(L), L).clip(0)
                else:
                    L = sum(x for tt, x in q["real"] if tt == t)
                hi = np.where(both, loss.sum(axis=1), np.where(L >= 1, L, 0))
                lo = np.where(both, loss.sum(axis=1), (L - A).clip(0))
                for nm, v, s in (("LOL", (hi > 0) * 1.0, (hi > 0) * 1.0 - (lo > 0)), ("MGN", hi, hi - lo)):
                    for cc in "HP":
                        q.setdefault((nm + "S" + cc + "P", None), []).append((t, v, s, (hi > 0) * 1.0))
                continue
            any_ = (loss > 0).any(axis=1)
            s = rest.sum(axis=1)
            zero = any_ & (s == 0)
            for cc in "HP":
                for g, sel in (("S", any_), ("G", any_ & (s < 0)), ("T", any_ & (s > 0))):
                    z = zero if g != "S" else None
                    for i in range(A):
                        li = loss[:, i]
                        for nm, v in (("LOL", (li > 0) * 1.0), ("MGN", li)):
                            q.setdefault((nm + g + cc + "A", i), []).append((t, v * sel, None if z is None else v * z, (li > 0) * sel * 1.0))
                    for nm, v in (("LOL", any_ * 1.0), ("MGN", loss.sum(axis=1))):
                        q.setdefault((nm + g + cc + "P", None), []).append((t, v * sel, None if z is None else v * z, sel * 1.0))
        for k, rows in q.items():
            if k == "real":
                continue
            at = np.array([1.0 if k[0][4] == "H" or h == pk else 0.0 for h in hours])
            v = sum(w[t] * x for t, x, sl, n in rows) * at
            sl = sum(w[t] * sl for t, x, sl, n in rows if sl is not None) * at if any(r[2] is not None for r in rows) else None
            n = rows[0][3] * at  # the tier of the highest load
            put(k, p, v, at, sl, n)
    return acc, fewest


def run(job, out):
    case = J.case_of(job)
    rng = np.random.default_rng(job["s"])
    for u in case["units"]:
        for b, d in (("b1", "d1"), ("b2", "d2")):
            if u["pa"] and u[b] and (u[b] < 2 or u[b] + u[d] > 51):
                u[b], u[d] = 2 + int(rng.integers(40)), 1
        if u["pa"] and u["b2"] and not (u["b2"] + u["d2"] <= u["b1"] or u["b1"] + u["d1"] <= u["b2"]):
            u["b2"], u["d2"] = 0, 0
    if len(case["areas"]) > 2:
        for t in case["lines"]:
            t["st"] = [(a, 40000.0 + i, 50000.0 - i, p) for i, (a, f, b, p) in enumerate(t["st"])]
            t["st"] = [(a or -1.0, f, b, p) for a, f, b, p in t["st"]]
    m = Model(case)
    tot = {}

    def on_event(ev, T):
        for c in ev.calls:
            if c["f"] == "year":
                tot.clear()
                tot.update({k: np.asarray(v, float).copy() for k, v in c["tot"].items()})
                tot["n"] = tot.get("n", 0)
                years.append(int((c["CLOCK"] + 1) / 8760))

    years = []
    try:
        e2e.simulate(case, on_event=on_event, draws=False, bound=J.bound_of(case))
    except Stop:
        out.violation("endless", "the run does not end")
        return
    n = len(years)
    ls = int(case["mc"]["LS"])
    acc, few = exact(m, ls)
    what = J.describe(case)
    out.count("runs")
    out.count({1: "one_area", 2: "two_areas"}.get(m.A, "more_areas"))
    out.count("seasonal", int(len({tuple(c) for c in m.cap.T.tolist()}) > 1))
    out.count("outages", int(m.out.any()))
    out.count("tiers5", int(m.nf == 5))
    out.count("daily_draws", int(m.freq == 24 and m.step == 1))
    out.count("hourly", int(m.step == 1))
    out.count("sharing", int(ls == 0 and m.A == 2))
    out.count("limited", int(m.A == 2 and min(m.limit) < max(m.fwd.max(), m.bwd.max())))
    worst = (0, None)
    for (k, i), (e, v, s) in sorted(acc.items(), key=str):
        x = tot[{"LOL": "SWL", "MGN": "SWN"}[k[:3]] + k[3:]].ravel()[i or 0]
        if m.step == 24 and k[4] == "H":
            continue  # only the peak hour is looked at
        f = few[(k, i)] * n
        sd = np.sqrt(max(v, 0) * n)
        lo, hi = (e - s) * n, (e + s) * n
        if ls == 0 and m.A == 2 or m.A > 2:
            hi = e * n
        if f < 30:
            out.case()
            out.check(x <= hi + 12 * sd + 40 * (hi / max(f, 1e-3)) + 1e-6, "far-off", "%s: %s of %s over %d years is %.1f, the exact expectation is %.3f" % (what, k, i, n, x, e * n))
            continue
        z = max(lo - x, x - hi, 0) / sd
        d = (x - e * n) / sd
        worst = max(worst, (abs(d), k, i), key=lambda y: y[0])
        out.check(z <= Z, "index-" + k, "%s: %s of %s over %d years is %.1f, the exact expectation is %.1f +- %.1f" % (
            what, k, "the pool" if i is None else "area %d" % (i + 1), n, x, e * n, sd))
        out.count("indices")
        out.count("expected_losses", int(f) if k in ("LOLSHP", "LOLSPP") else 0)
        out.case((job["s"], k, i))
    out.sample(case=what, years=n, largest_deviation=worst)


def jobs(tier, rng):
    q = tier == "quick"
    r = []

    Y = 2 if q else 8
    D = 25 if q else 150
    k = 1 if q else 4
    base = dict(contracts=False, owners=False, flow_limit=False)
    mc = dict(CVT=1e-9, FIN=Y, STEP=1, FREQ=1, LS=1)
    h = []
    for A in (1, 2):
        n = 5 if A == 1 else 3
        for freq in (1, 24):
            for lfu in (True, False):
                h.append(dict(tw=["season", "nomaint"] if lfu else ["noauto"], case=dict(base, n_area=A, units_per_area=n, stress=0.85 if A == 1 else 0.95, lfu=lfu,
                         maint="pre", mc=dict(mc, FREQ=freq))))
    h.append(dict(tw=["noauto"], case=dict(base, n_area=2, units_per_area=3, stress=0.95, lfu=False, maint="pre", mc=dict(mc, LS=0))))
    h.append(dict(tw=["noauto", "season"], case=dict(base, n_area=2, units_per_area=3, stress=0.95, lfu=False, maint="pre", flow_limit=True, mc=dict(mc))))
    for i in range(2):
        h.append(dict(tw=["noauto", "season"], case=dict(base, n_area=3 + i, units_per_area=2, stress=0.85, lfu=not i, maint="pre", mc=dict(mc, LS=i, FREQ=[24, 1][i]))))
    for j in h:
        r += [dict(j, s=s) for s in J.seeds(rng, k)]
    d = []
    for A in (1, 2):
        for lfu in (True, False):
            for i in range(2):
                d.append(dict(tw=["noauto"] + (["season"] if i else []), case=dict(base, n_area=A, units_per_area=4 if A == 2 else 6, stress=0.9, lfu=lfu, maint="pre",
                         flow_limit=bool(i and A == 2), mc=dict(mc, STEP=24, FIN=D, FREQ=[1, 24][i], LS=1 if A == 1 or i else int(lfu)))))
    for i in range(2):
        d.append(dict(tw=["noauto"], case=dict(base, n_area=3 + i, units_per_area=2, stress=0.85, lfu=bool(i), maint="pre", mc=dict(mc, STEP=24, FIN=D, LS=i))))
    for j in d:
        r += [dict(j, s=s) for s in J.seeds(rng, k)]
    return r
