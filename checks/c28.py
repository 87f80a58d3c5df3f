"""input cards are taken over for the right area, unit and line"""
import csv
import json
import os

import numpy as np

from lib import e2e, gen, jobs as J, once, prep
from lib.common import isolated
from lib.shadow import Model

RULE = ("a case is one random set of cards: arbitrary names and line numbers, rows out of order with (also broken) serial numbers, both "
        "directions of lines, joint owners, contracts, zero admittances and capacities; what the program makes of them is compared with "
        "the reference model and with the same system entered in order; some are simulated both ways; all are non-trivial")
REQUIRE = {"prepared": 60, "shuffled": 60, "reordered": 30, "zeros": 8, "named": 60, "runs": 4, "contract_days": 500, "units": 500, "lines": 150, "no_file": 20, "partly_no_file": 20, "many": 4, "derated": 4, "not_derated": 4}
CARDS = ["ZZLD", "ZZUD", "ZZTD", "ZZFC", "ZZOD"]


def names(case, rng):
    """up to four letters for areas, six for units (four for the plant, two for the unit)"""
    pool = ["N", "EAST", "W1", "MID", "ZONE", "Q-3", "A1", "B", "AREA", "X9Z", "NO", "C2", "A2", "HUB", "1A", "SUB", "ZONA", "hub", "N1", "E", "EAS2", "W 1"]
    x = rng.permutation(len(pool))
    for i, a in enumerate(case["areas"]):
        a["name"] = pool[x[i]]
    seen = set()
    abc = "ABCDEFGHJKLMNPQRSTUVWXYZ0123456789"
    for u in case["units"]:
        while True:
            nm = "".join(abc[int(k)] for k in rng.integers(len(abc), size=4)) + "%02d" % rng.integers(1, 99)
            if seen and rng.random() < 0.4:  # several units of a plant, or units of the same number
                x = sorted(seen)[int(rng.integers(len(seen)))]
                nm = x[:4] + nm[4:] if rng.random() < 0.7 else nm[:4] + x[4:]
            if nm not in seen and not nm[0].isdigit():
                break
        seen.add(nm)
        u["name"] = nm
    return case


def scramble(path, rng, broken=True):
    """the same cards with their rows in any order; the serial numbers tell the sequence"""
    for f in CARDS:
        p = os.path.join(path, f + ".csv")
        with open(p, newline="") as h:
            rows = list(csv.reader(h))
        head, body = rows[0], rows[1:]
        sn = np.cumsum(rng.integers(1, 8, len(body)))
        dec = broken and rng.random() < 0.5
        for r, k in zip(body, sn):
            r[0] = "%.3f" % (k / 8) if dec else str(k)
        body = [body[k] for k in rng.permutation(len(body))]
        with open(p, "w", newline="") as h:
            w = csv.writer(h, quotechar='"')
            w.writerow(head)
            w.writerows(body)
    p = os.path.join(path, "LEEI")
    blocks = open(p).read().split("AREA:")[1:]
    with open(p, "w") as h:
        for k in rng.permutation(len(blocks)):
            h.write("AREA:" + blocks[k])


def renumber(path, rng):
    """lines get other (distinct) numbers"""
    p = os.path.join(path, "ZZTD.csv")
    with open(p, newline="") as h:
        rows = list(csv.reader(h))
    num = rng.permutation(3 * len(rows))[: len(rows)] + 1
    for r, k in zip(rows[1:], num):
        r[1] = str(k)
    with open(p, "w", newline="") as h:
        csv.writer(h).writerows(rows)


def zeros(case, rng):
    for t in case["lines"]:
        t["st"] = [tuple(0.0 if rng.random() < 0.3 else v for v in s[:3]) + (s[3],) for s in t["st"]]
    return case


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        return a.shape == b.shape and np.array_equal(a.astype(float), b.astype(float))
    return a.shape == b.shape and bool((a == b).all())


def clean():
    for f in ("output.txt",):
        os.path.exists(f) and os.remove(f)


def make(rng, job):
    na = int(rng.integers(2, 12 if rng.random() < 0.2 else 6)) if not job.get("many") else int(rng.integers(7, 13))
    case = gen.random_case(rng, n_area=na, units_per_area=int(rng.integers(2, 7)),
                           mc=job.get("mc"), maint="pre" if rng.random() < 0.5 else "none", stress=float(rng.uniform(0.5, 0.9)))
    gen.tweak(case, rng, [t for t in ("season", "fractions", "outages", "linestates", "owners", "contracts", "lfu", "rates", "linerates", "decimals") if rng.random() < 0.5])
    if job.get("many"):  # contracts between most of the areas
        pr = [(a, b) for a in range(na) for b in range(na) if a != b]
        case["fc"] = []
        for q in rng.permutation(len(pr))[: int(rng.integers(40, 133))]:
            b = int(rng.integers(1, 366))
            case["fc"].append(dict(a=pr[q][0], b=pr[q][1], beg=b, end=int(rng.integers(b, 366)), mw=int(rng.integers(1, 30))))
    elif rng.random() < 0.3:  # joint owners, but no contracts
        case["fc"] = []
        gen.tweak(case, rng, ["owners"])
    for t in case["lines"]:
        if rng.random() < 0.5:
            t["a"], t["b"] = t["b"], t["a"]
        if rng.random() < 0.2:  # very large lines
            t["st"] = [(float(s[0]), s[1] * 300, s[2] * 300, s[3]) for s in t["st"]]
    o = rng.permutation(len(case["units"]))  # units of the areas in any order
    inv = {int(k): i for i, k in enumerate(o)}
    case["units"] = [case["units"][k] for k in o]
    for x in case["od"]:
        x["u"] = inv[x["u"]]
    gen.tweak(case, rng, ["noauto"])
    return names(case, rng)


def prepared(job, out):
    rng = J.rng_of(job)
    for i in range(job["n"]):
        case = make(rng, job)
        if rng.random() < 0.4:
            zeros(case, rng)
            out.count("zeros")
        m = Model(case)
        clean()
        d = prep.prepare(case, path=os.path.abspath("in"))
        path = os.path.abspath("in")
        for w in ("outages", "loads", "peaks", "units", "lines", "contracts", "misc"):
            prep.ALL[w](d, case, out, m)
        out.count("prepared")
        out.count("many", int(len(case["fc"]) > 39))
        out.count("named")
        scramble(path, rng)
        clean()
        e = prep.prepare(case, path=path, write=False)
        out.count("shuffled")
        for k in d:
            if not equal(d[k], e[k]):
                out.violation("row-order-" + k, "%s depends on the order of the rows: %s instead of %s" % (k, str(e[k])[:150], str(d[k])[:150]))
                return
        gone = [f for f, k in (("ZZFC", "fc"), ("ZZOD", "od"), ("ZZDD", None)) if not (k and case[k]) and rng.random() < 0.7]
        if gone:  # optional cards of which there are none need not have a file
            for f in gone:
                os.remove(os.path.join(path, f + ".csv"))
            clean()
            e = prep.prepare(case, path=path, write=False)
            out.count("no_file")
            out.count("partly_no_file", int(len(gone) < 3))
            for k in d:
                if not equal(d[k], e[k]):
                    out.violation("no-file-" + k, "without the empty files %s, %s is %s instead of %s" % (gone, k, str(e[k])[:150], str(d[k])[:150]))
                    return
        renumber(path, rng)
        clean()
        e = prep.prepare(case, path=path, write=False)
        for w in ("lines", "misc"):
            prep.ALL[w](e, case, out, m)
        for k in d:
            if k != "LP" and not equal(d[k], e[k]):
                out.violation("line-number-" + k, "%s depends on the line numbers: %s instead of %s" % (k, str(e[k])[:150], str(d[k])[:150]))
                return
        # the same system with other sequences of lines, contracts and owners, lines entered from the other end
        other = json.loads(json.dumps(dict(case, shapes=None)))
        other["shapes"] = case["shapes"]
        for k in ("lines", "fc", "od"):
            other[k] = [other[k][j] for j in rng.permutation(len(other[k]))]
        for t in other["lines"]:
            if rng.random() < 0.5:
                t["a"], t["b"] = t["b"], t["a"]
                t["st"] = [[s[0], s[2], s[1], s[3]] for s in t["st"]]
        clean()
        g = prep.prepare(other, path=path)
        mo = Model(other)
        for w in ("loads", "peaks", "units", "lines", "contracts"):
            prep.ALL[w](g, other, out, mo)
        for k in ("HRLOAD", "DYLOAD", "MAXHR", "MAXDAY", "WPEAK", "MXPLHR", "CAPOWN", "CAPCON", "RATES", "PROBG", "DERATE", "JPLOUT"):
            a, b = np.asarray(d[k], float), np.asarray(g[k], float)
            tie = k in ("MXPLHR", "MAXHR", "MAXDAY")
            ok = a.shape == b.shape and ((np.abs(a - b) <= 1e-6).all() or tie)
            out.check(ok, "entry-order-" + k, "%s depends on the sequence of the lines, contracts or owners" % k)
        out.count("reordered")
        out.case((job["s"], i))
        if i == 0:
            out.sample(case=J.describe(case), areas=[a["name"] for a in case["areas"]], units=[u["name"] for u in case["units"]][:4])
        if out.nviol:
            return


def whole(job, out):
    """entered in order, and with shuffled rows and other line numbers: the same simulation"""
    rng = J.rng_of(job)
    case = make(rng, job)
    gen.write_case(case, "a")
    gen.write_case(case, "b")
    scramble("b", rng)
    renumber("b", rng)
    k, A = isolated(once.observe, os.path.abspath("a"))
    k2, B = isolated(once.observe, os.path.abspath("b"))
    if not out.check(k == k2 == "ok", "crash", "the run fails: %s %s" % (k != "ok" and A, k2 != "ok" and B)):
        return
    for x in (A, B):
        x["files"] = {f: t for f, t in x["files"].items() if f == "output.txt"}
    out.count("runs")
    out.count("losses", A["losses"])
    for d in once.differences(A, B)[:3]:
        out.violation("run-differs", "rows out of order and other line numbers change the simulation: %s" % d)
    out.case((job["s"], "run") if A["losses"] else None)


def derate(job, out):
    """a line derating card: the line of two areas is halved while all units of the card are out, and only then"""
    rng = J.rng_of(job)
    for i in range(job["n"]):
        case = gen.random_case(rng, n_area=2, units_per_area=4, lfu=False, contracts=False, owners=False, flow_limit=False, maint="none",
                               mc=dict(STEP=24, FIN=1, LS=i % 2, CVT=1e-9))
        a = int(rng.integers(2))
        own, cap, need = 10 * int(rng.integers(2, 6)), 10 * int(rng.integers(3, 9)), 10 * int(rng.integers(2, 6))
        for j, x in enumerate(case["areas"]):
            x["peak"] = own + cap + need if j == a else 100
        k = int(rng.integers(1, 4))
        out_all, n = i // 2 % 2 == 0, [0, 0]
        for u in case["units"]:
            n[u["loc"]] += 1
            u.update(FOR=0, dfor=0, der=0, cap=[own if u["loc"] == a and n[a] == 1 else 0 if u["loc"] == a else 500] * 4)
        crit = [u for u in case["units"] if u["loc"] != a][:k]
        for u in crit:
            u["FOR"] = 1
        if not out_all:
            crit[-1]["FOR"] = 0
        for t in case["lines"]:
            t["st"] = [(x[0], float(cap), float(cap), float(s == 0)) for s, x in enumerate(t["st"])]
        case["shapes"] = np.full((2, 8760), 1000)
        gen.write_case(case, "d%d" % i)
        with open("d%d/ZZDD.csv" % i, "a") as h:
            h.write("1,1,%s,50,50\n" % ",".join((["'%s'" % u["name"] for u in crit] + [""] * 4)[:4]))
        lost = []

        def on_event(ev, T):
            for c in ev.calls:
                if c["f"] == "hrstat":
                    lost.append((int(-np.minimum(c["MARGIN"], 0).sum()), np.asarray(c["MARGIN"]).tolist()))

        what = "area %d of %d MW with %d MW of its own, a line of %d MW, %s units of the derating card out" % (a + 1, own + cap + need, own, cap, "all" if out_all else "not all")
        e2e.simulate(None, path=os.path.abspath("d%d" % i), on_event=on_event, bound=J.bound_of(case))
        want = need + cap // 2 * out_all
        got = {x for x, _ in lost}
        out.count("derated" if out_all else "not_derated")
        out.case(("derate", own, cap, need, out_all, k))
        if out_all and got == {need} and len(lost) == 365:
            out.violation("line-derating-unused", "%d MW are lost each day instead of %d: %s" % (need, want, what))
        else:
            out.check(got == {want} and len(lost) == 365, "line-derating", "%d losses of %s MW instead of 365 of %d MW: %s" % (len(lost), sorted(got)[:4], want, what))


def run(job, out):
    J.dispatch(job, out, dict(prep=prepared, run=whole, derate=derate))


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="prep", s=s, n=8 if q else 40) for s in J.seeds(rng, 8 if q else 48)]
    r += [dict(k="prep", s=s, n=2 if q else 10, many=1) for s in J.seeds(rng, 3 if q else 16)]
    r += [dict(k="derate", s=s, n=8 if q else 40) for s in J.seeds(rng, 1 if q else 4)]
    r += [dict(k="run", s=s, mc=dict(STEP=24, FIN=1, FREQ=[1, 24][i % 2], CVT=1e-9)) for i, s in enumerate(J.seeds(rng, 6 if q else 48))]
    return r
