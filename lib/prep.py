"""The data preparation alone: cards in, arrays out, compared with the reference model."""
import os

import numpy as np

from lib import gen, rec
from lib.common import HookMissing
from lib.e2e import RET
from lib.shadow import Model


def prepare(case, path=None, write=True):
    """what the program makes of a case: {name: array}"""
    path = path or os.path.join(os.getcwd(), "prep")
    if write:
        gen.write_case(case, path)
    from pathlib import Path

    r = rec.fn("dataf1")([Path(path), Path(path, "LEEI")])
    if len(r) != len(RET):
        raise HookMissing("data preparation returns %d values" % len(r))
    return dict(zip(RET, r))


def outages(d, case, out, m=None, message=None):
    """the outage table against the scheduled weeks"""
    m = m or Model(case)
    tab = np.asarray(d["JPLOUT"])
    out.check(tab.shape[0] == 52, "outage-table", "outage table with %d weeks" % tab.shape[0])
    got = np.zeros((m.U, 52), bool)
    for w in range(52):
        n = int(tab[w, 0])
        u = tab[w, 1: n + 1].astype(int)
        if not out.check((u >= 0).all() and (u < m.U).all(), "outage-table", "week %d lists the units %s" % (w + 1, u)):
            continue
        got[u, w] = True
    bad = (got != m.out) & ~m.auto[:, None]
    out.count("unit_weeks", bad.size)
    out.count("outage_weeks", int(m.out.sum()))
    if bad.any():
        i, w = (int(x[0]) for x in np.nonzero(bad))
        out.violation("outage-schedule", "unit %d is%s on planned outage in week %d; its schedule is %s" % (
            i, "" if got[i, w] else " not", w + 1, {k: case["units"][i][k] for k in ("pa", "b1", "d1", "b2", "d2")}))
    for i in np.nonzero(m.auto)[0]:
        u = case["units"][i]
        out.count("auto_units")
        weeks = np.nonzero(got[i])[0]
        if weeks.size == 0:
            if message is not None and u["name"][:4] in message and "NOT FEASIBLE" in message:
                continue
            out.violation("auto-unscheduled", "unit %d asks for %d+%d weeks of automatic maintenance: no weeks, no message" % (
                i, u["d1"], u["d2"]))
        else:
            lo, hi = case["areas"][u["loc"]]["win"]
            if weeks.min() < lo - 1 or weeks.max() > hi - 1:
                out.violation("auto-window", "unit %d is scheduled in weeks %s outside its area's window %d-%d" % (
                    i, (weeks + 1).tolist(), lo, hi))
    return got


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or np.abs(a - b).max() <= tol * max(1.0, np.abs(b).max()))


def loads(d, case, out, m=None):
    m = m or Model(case)
    H = np.asarray(d["HRLOAD"], float)
    if not out.check(H.shape == m.load.shape, "load-shape", "hourly loads of shape %s" % (H.shape,)):
        return
    e = np.abs(H - m.load)
    if e.max() > 1e-6:
        a, h = (int(x) for x in np.unravel_index(e.argmax(), e.shape))
        out.violation("load-value", "load of area %d in hour %d is %r, the shape scaled to the peak gives %r" % (a, h, H[a, h], m.load[a, h]))
    F = np.asarray(d["FCTERR"], float)[:, : m.nf] if m.nf == 5 else np.asarray(d["FCTERR"], float)[:, 2:3]
    out.check(int(d["NFCST"]) == m.nf, "tier-count", "%s forecast tiers instead of %d" % (d["NFCST"], m.nf))
    out.check(int(d["NORR"]) == m.base, "tier-base", "unmodified tier is number %s instead of %d" % (d["NORR"], m.base))
    out.check(near(F, m.fac), "tier-factor", "tier factors %s instead of %s" % (F.tolist(), m.fac.tolist()))
    if m.nf == 1:
        out.check(near(np.asarray(d["FCTERR"], float)[:, 0], np.ones(m.A)), "tier-factor", "single tier scales loads by %s" % np.asarray(d["FCTERR"])[:, 0])
    out.count("area_hours", H.size)


def peaks(d, case, out, m=None, tol=1e-6):
    m = m or Model(case)
    D = np.asarray(d["DYLOAD"], float)
    out.check(near(D, m.dpeak), "daily-peak", "daily peaks differ by %s" % (np.abs(D - m.dpeak).max() if D.shape == m.dpeak.shape else D.shape))
    X = np.asarray(d["MAXHR"])
    if out.check(X.shape == m.dpeakh.shape, "daily-peak-hour", "hours of daily peaks have shape %s" % (X.shape,)):
        # ambiguous when rounding decides
        s = np.sort(m.net.reshape(m.A, 365, 24), axis=2)
        sure = (s[:, :, -1] - s[:, :, -2]) > tol
        bad = sure & (X != m.dpeakh)
        if bad.any():
            a, y = (int(v[0]) for v in np.nonzero(bad))
            out.violation("daily-peak-hour", "area %d day %d peaks in hour %d, not %d" % (a, y, m.dpeakh[a, y], X[a, y]))
        out.count("area_days", int(sure.sum()))
    s = np.sort(m.dpeak, axis=1)
    sure = (s[:, -1] - s[:, -2]) > tol
    bad = sure & (np.asarray(d["MAXDAY"]) != m.maxday)
    out.check(not bad.any(), "peak-day", "annual peak days %s instead of %s" % (d["MAXDAY"], m.maxday))
    W = np.asarray(d["WPEAK"], float)
    out.check(near(W, m.wpeak), "weekly-peak", "weekly peaks differ")
    P = np.asarray(d["MXPLHR"])
    if out.check(P.shape == (365,), "pool-peak", "pool peak hours of shape %s" % (P.shape,)):
        bad = ~m.pool_amb & (P != m.poolh)
        if bad.any():
            y = int(np.nonzero(bad)[0][0])
            out.violation("pool-peak", "on day %d the pool peaks in hour %d, not %d" % (y, m.poolh[y], P[y]))


def units(d, case, out, m=None):
    m = m or Model(case)
    for nm, got, exp in (("unit-rating", d["RATES"], m.cap), ("unit-area", d["CAPCON"], m.loc),
                         ("unit-rates", np.asarray(d["PROBG"], float), np.column_stack([m.pfull, m.pder])),
                         ("unit-derating", d["DERATE"], m.der), ("unit-shares", d["CAPOWN"], m.own)):
        out.check(near(got, exp), nm, "%s %s, input gives %s" % (nm, np.asarray(got).tolist(), np.asarray(exp).tolist()))
    out.count("units", m.U)


def lines(d, case, out, m=None):
    m = m or Model(case)
    LP = np.asarray(d["LP"])
    if not out.check(LP.shape == (m.L, 3), "line-count", "line table of shape %s" % (LP.shape,)):
        return
    out.check((LP[:, 1] == m.lfrom).all() and (LP[:, 2] == m.lto).all(), "line-ends", "lines join %s, input %s" % (
        LP[:, 1:].tolist(), list(zip(m.lfrom, m.lto))))
    B = np.asarray(d["BLPA"], float)
    out.check(near(B[:, 0::3], m.adm), "line-admittance", "admittances %s, input %s" % (B[:, 0::3].tolist(), m.adm.tolist()))
    out.check(near(B[:, 1::3], m.fwd), "line-forward", "forward capacities %s, input %s" % (B[:, 1::3].tolist(), m.fwd.tolist()))
    out.check(near(B[:, 2::3], m.bwd), "line-backward", "backward capacities %s, input %s" % (B[:, 2::3].tolist(), m.bwd.tolist()))
    P = np.asarray(d["PROBL"], float)
    out.check(near(P[:5], m.lcum.T[:5]), "line-probability", "cumulative line state probabilities %s, input %s" % (P.tolist(), m.lcum.T.tolist()))
    BN = np.asarray(d["BN"], float)
    out.check(near(BN[:, 3], m.limit) and near(BN[:, 4], m.limit), "area-limit", "limits on the sum of flows %s, input %s" % (BN[:, 3:].tolist(), m.limit))
    N = np.asarray(d["LINENO"])
    for i in range(m.A):
        for j in range(m.A):
            if i != j:
                e = m.line(i, j)
                g = max(int(N[i, j]), int(N[j, i]))
                out.check(g == e, "line-between", "areas %d and %d are joined by line %s, input %s" % (i, j, g, e))
    out.count("lines", m.L)


def contracts(d, case, out, m=None):
    m = m or Model(case)
    f = rec.fn("findtn")
    for day in range(365):
        t = np.asarray(f(d["JENT"], d["INTCH"], day), float)
        if not near(t, m.trans[day]):
            out.violation("contract-day", "on day %d the areas deliver %s, the contracts say %s" % (day + 1, t.tolist(), m.trans[day].tolist()))
            return
        if abs(t.sum()) > 1e-6:
            out.violation("contract-sum", "on day %d deliveries add up to %g" % (day + 1, t.sum()))
            return
        if t.any():
            out.count("contract_days")
    out.count("days", 365)


def misc(d, case, out, m=None):
    m = m or Model(case)
    c = case["mc"]
    exp = dict(NLS=c["LS"], JSTEP=c["STEP"], JFREQ=c["FREQ"], FINISH=c["FIN"] * 8760, INTV=c["IN"], INTVT=c["IN"],
               IOI=c["II"], IOJ=c["IJ"], KVLOC=c["KVL"] - 1, KVSTAT=c["KVS"], KVTYPE=c["KVT"], KVWHEN=c["WHEN"],
               KWHERE=c["WHERE"], CVTEST=c["CVT"], MAXEUE=c["MAXE"], NOAREA=m.A)
    for k, v in exp.items():
        out.check(abs(float(d[k]) - float(v)) < 1e-9, "option-" + k, "option %s is %s, input says %s" % (k, d[k], v))
    out.check(near(d["QTR"], m.qtr + 0.5), "option-seasons", "seasons change at %s, input %s" % (d["QTR"], c["WK"]))
    nm = [str(x).strip() for x in d["NAMA"]]
    out.check(nm == [a["name"] for a in case["areas"]], "area-names", "areas are called %s" % nm)
    out.check(near(d["PKLOAD"], m.peak), "area-peak", "annual peaks %s, input %s" % (d["PKLOAD"], m.peak))


ALL = dict(outages=outages, loads=loads, peaks=peaks, units=units, lines=lines, contracts=contracts, misc=misc)


def job(job, out, what, J):
    """many prepared cases"""
    rng = J.rng_of(job)
    for i in range(job["n"]):
        case = gen.tweak(gen.random_case(rng, **job.get("case", {})), rng,
                         list(job.get("tw", [])) + (["decimals"] if rng.random() < 0.3 else []))
        if os.path.exists("output.txt"):
            os.remove("output.txt")
        d = prepare(case)
        m = Model(case)
        for w in what:
            if w == "outages":
                txt = open("output.txt").read() if os.path.exists("output.txt") else ""
                outages(d, case, out, m, txt)
            else:
                ALL[w](d, case, out, m)
        out.count("prepared")
        out.case((job["s"], i))
        if i == 0:
            out.sample(case=J.describe(case))
