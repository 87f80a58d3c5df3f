"""each year is counted once in each probability distribution"""
import numpy as np

from checks import c20
from lib import e2e, roll

RULE = ("a case is one simulated year of one area; the three distributions after each year and the printed tables are compared with an "
        "independent count; non-trivial cases are the distinct classes reached, including the last and the class limits")
REQUIRE = {"years": 60, "last_class": 10, "on_limit": 5, "tables": 20, "classes": 30}


def run(job, out):
    o = c20.observe(job, out, e2e.HIST, "distribution")
    if not o:
        return
    case, m, B, years, T, txt = o
    seen = set()
    for d, w in B.table:
        for i in range(m.A):
            h, p, e = (float(d[k][i, m.base]) for k in ("LOLSHA", "LOLSPA", "MGNSHA"))
            out.count("last_class", int(h >= 21) + int(p >= 21) + int(e // B.step >= 21))
            out.count("on_limit", int(e > 0 and e % B.step == 0) if B.step > 1 else 0)
            seen.add((min(h, 21), min(p, 21), min(e // B.step, 21)))
    out.count("classes", len(seen))
    for s in seen:
        out.case(s)
    n = len(years)
    for k in e2e.HIST:
        s = np.asarray(years[-1]["tot"][k], float).sum(axis=1)
        out.check((s == n).all(), "not-once", "%s holds %s observations after %d years" % (k, s.tolist(), n))
    f = roll.split_final(txt)
    if not f:
        return
    tabs = roll.dist_tables(f[-1][1])
    if not out.check([t[0] for t in tabs] == list(range(1, m.A + 1)), "tables", "distribution tables of areas %s for %d areas" % ([t[0] for t in tabs], m.A)):
        return
    for a, rows in tabs:
        i = a - 1
        if not out.check(len(rows) == 22, "table-rows", "distribution table of area %d has %d rows" % (a, len(rows))):
            return
        out.count("tables")
        for j, t in enumerate(rows):
            x = [float(j)]
            for k in ("DPLOLE", "HLOLE"):
                x += [B.h[k][i, j], B.h[k][i, j] / n]
            x += [float(j * B.step), B.h["EUES"][i, j], B.h["EUES"][i, j] / n]
            for c, (tok, v) in enumerate(zip(t, x)):
                if not roll.Fmt.same(tok, v, roll.decimals(tok)):
                    out.violation("table-value", "distribution table of area %d class %d column %d: %s printed, %.6g expected" % (a, j, c + 1, tok, v))
                    return
    out.sample(areas=m.A, years=n, step=B.step, HLOLE=B.h["HLOLE"][0], EUES=B.h["EUES"][0])


def jobs(tier, rng):
    q = tier == "quick"
    r = roll.jobs_of(rng, 30 if q else 280, 2 if q else 16)
    for i, j in enumerate(r):
        j["mc"] = dict(MAXE=[0, 5, 19, 20, 39, 40, 100, 777, 20000, 5000, 60000, 100000, 31000, 12345][i % 14])
        j["style"] = ["wild", "wild", "calm", "mix", "rare", "tail"][i % 6]
    r += roll.jobs_of(rng, 1 if q else 6, 0, A=2, mc=dict(CVT=1e-9, FIN=110, MAXE=20000))
    return r
