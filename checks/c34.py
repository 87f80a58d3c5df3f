"""printing options never change the results"""
import os
import re

import numpy as np

from lib import e2e, gen, jobs as J, netw, once, rec, roll
from lib.common import HookMissing, isolated

RULE = ("a case is one system run under several combinations of the printing options (transmission results, tables per replication, input "
        "data, outage schedules) and snapshot intervals: traces, years and final reports are compared; or one transmission result "
        "printed for random outages of units, compared with these outages and the flows found; non-trivial cases have losses or list a unit")
REQUIRE = {"compared": 20, "loss": 4, "solved": 500, "printed": 150, "printed_runs": 5, "listed": 300, "listed_planned": 50, "listed_derated": 50, "listed_many": 40, "silent": 50, "area_rows_0": 60, "area_rows_1": 700}
ASSUMPTIONS = ["the first unit is listed as 0 whether derated or on outage (there is no negative zero)",
               "the transmission file holds the last result only; each one is read as soon as it is written"]
FILES = ("traout.txt ", "traout.txt")


# ------------------------------------------------------------------ neutrality
def final(x):
    """the observable result without what the options ask for (tables are numbered through)"""
    f = roll.split_final(x["files"].get("output.txt", ""))
    return dict(years=x["years"], trace=x["trace"], files={"final report": re.sub(r"TABLE +\d+", "TABLE", "\n".join(t for _, t in f))}), [k for k, _ in f]


def neutral(job, out):
    case = J.case_of(job)
    rng = np.random.default_rng(job["s"] + 1)
    ref = None
    fin = case["mc"]["FIN"]
    # the options are on and off against each other option at least once
    plans = [dict(II=0, IJ=0, D=0, M=0, IR=0, IN=fin + 1)]
    plans += [dict(II=1, IJ=1, D=1, M=1, IR=1, IN=1)]
    plans += [{k: int(rng.integers(2)) for k in ("II", "IJ", "D", "M", "IR")} for _ in range(job["n"] - 2)]
    for p in plans:
        p.setdefault("IN", int(rng.integers(1, fin + 3)))
    for i, p in enumerate(plans):
        case["mc"].update(p)
        gen.write_case(case, "case")
        k, x = isolated(once.observe, os.path.abspath("case"))
        what = "with " + ", ".join("%s=%d" % kv for kv in sorted(p.items()))
        if not out.check(k == "ok", k, "%s the run fails: %s" % (what, x)):
            return
        r, titles = final(x)
        out.check(len(titles) == 1, "reports", "%s %d final reports are written" % (what, len(titles)))
        if ref is None:
            ref = r, titles
            out.count("loss", int(x["loss"]))
            out.count("solved", x["solved"])
            out.sample(case=J.describe(case), solved=x["solved"], losses=x["losses"])
            base = what
            continue
        out.count("compared")
        out.case((job["s"], i) if x["loss"] else None)
        out.check(titles == ref[1], "title", "%s the report is after %s years, %s after %s" % (what, titles, base, ref[1]))
        for d in once.differences(ref[0], r)[:3]:
            out.violation("differs", "%s the results differ from those %s: %s" % (what, base, d))
        if out.nviol > 3:
            return


# ------------------------------------------------------------------ transmission results
def read(text, n, L):
    """clock, hour, stage, listed units, line rows"""
    t = text.split()
    c, h, s, k = (int(x) for x in t[:4])
    u = [int(x) for x in t[4: 4 + k]]
    rows = [l.split() for l in re.split(r"\n", text) if l.strip()]
    lines = [r for r in rows if len(r) == 7]
    return c, h, s, k, u, lines, rows


def expected(pln, pct):
    r = []
    for i, (a, b) in enumerate(zip(np.ravel(pln), np.ravel(pct))):
        if a != 1:
            r.append((i, "planned"))
        elif b == 0:
            r.append((i, "out"))
        elif b != 1:
            r.append((-i, "derated"))
    return r


class Watch:
    """reads every transmission result as it is written"""

    def __init__(self, out, IOI):
        self.out, self.IOI, self.used, self.d = out, IOI, 0, {}
        rec.hook("linp", lambda d: self.lp())
        rec.hook("tm2", self.before, self.after)

    def lp(self):
        self.used += 1

    def before(self, d):
        self.used = 0
        for f in FILES:
            if os.path.exists(f):
                os.remove(f)

    def after(self, d, r):
        out = self.out
        f = [f for f in FILES if os.path.exists(f)]
        if not self.IOI:
            out.count("silent")
            out.check(not f, "unasked", "a transmission result is printed though it was not requested")
            return
        if not self.used:
            return
        if not out.check(len(f) == 1, "not-printed", "the result of hour %s is not printed" % d["JHOUR"]):
            return
        txt = open(f[0]).read()
        n, L = d["BN"].shape[0], d["LP"].shape[0]
        c, h, s, k, u, lines, rows = read(txt, n, L)
        out.count("printed")
        ctx = dict(pln=d["PLNDST"], pct=d["PCTAVL"], text=txt[:600])
        out.check(c == int(d["LCLOCK"]) and h == int(d["JHOUR"]), "time", "printed for clock %d hour %d, it is clock %d hour %d" % (
            c, h, d["LCLOCK"], d["JHOUR"]), **ctx)
        exp = expected(d["PLNDST"], d["PCTAVL"])
        want = [i for i, _ in exp]
        out.check(k == len(want), "number", "%d units are announced, %d are on outage or derated" % (k, len(want)), **ctx)
        miss, more = sorted(set(want) - set(u)), sorted(set(u) - set(want))
        if out.check(not miss, "missing", "units on outage or derated (-) and not listed: %s of %s" % (miss[:8], want[:12]), **ctx):
            out.check(not more, "extra", "units listed though available: %s" % more[:8], **ctx)
            out.check(len(set(u)) == len(u), "twice", "a unit is listed twice: %s" % u[:20], **ctx)
        out.count("listed", len(want))
        for w in ("planned", "derated", "out"):
            out.count("listed_" + w, sum(1 for _, v in exp if v == w))
        out.count("listed_many", int(len(want) > 3))
        out.case(tuple(want) if want else None)
        B, S, flag = np.asarray(d["BN"], float), np.asarray(d["BNS"], float), int(d["JFLAG"])
        out.check(s == flag, "stage", "printed as stage %d, it is %d" % (s, flag), **ctx)
        ar = [x for x in rows[2 + k:] if len(x) != 7]
        if flag == 1:
            exp, names = np.column_stack([B[:n, [0, 1, 2]], S[:n, :2], B[:n, 3]]), "area, two results, margin and load before, limit"
        else:
            exp, names = np.column_stack([B[:n, 0], S[:n, 0], B[:n, 1], S[:n, 4], S[:n, 5]]), "area, delivery, result, capacity and load"
        out.count("area_rows_%d" % flag, len(ar))
        if out.check(len(ar) == n, "areas", "%d area rows for %d areas" % (len(ar), n), **ctx):
            for i, x in enumerate(ar):
                if not out.check(len(x) == exp.shape[1] and all(abs(float(a) - b) < (0.51 if flag == 1 or not j else 0.00501) for j, (a, b) in enumerate(zip(x, exp[i]))),
                                 "area-row", "row %s, expected %s: %s" % (x, names, exp[i].tolist()), **ctx):
                    break
        F = np.asarray(r[0], float).ravel()
        got = [x for x in lines[-L:]] if L else []
        if out.check(len(got) == L, "lines", "%d line rows for %d lines" % (len(got), L), **ctx):
            for i, x in enumerate(got):
                out.check(all(abs(float(a) - b) < 0.51 for a, b in zip(x[3:6], np.asarray(d["BLP"], float)[i])), "limits",
                          "line row %s, its admittance and limits are %s" % (x, d["BLP"][i].tolist()), **ctx)
                out.check([int(v) for v in x[1:3]] == [int(v) for v in d["LP"][i, 1:3]] and abs(float(x[6]) - F[i]) < 0.51, "flow",
                          "line row %s, the flow from area %d to %d is %g" % (x, d["LP"][i, 1], d["LP"][i, 2], F[i]), **ctx)
        out.sample(units=want[:10], printed=u[:10])


def direct(job, out):
    rng = J.rng_of(job)
    for _ in range(job["n"]):
        n = int(rng.integers(2, 7))
        LP, A, BN = netw.rand_net(rng, n)
        D = netw.Driver(LP, A, BN, int(rng.integers(n)))
        U = int(rng.choice([1, 2, 3, 6, 17, 60]))
        W = Watch(out, int(rng.random() < 0.8))
        for s in range(job["steps"]):
            con, load, T, TJ, st = netw.rand_state(rng, n, len(LP))
            p = float(rng.choice([0.05, 0.3, 0.9]))
            pln = np.where(rng.random(U) < p, 0.0, 1.0) if rng.random() < 0.6 else np.ones(U)
            pct = np.where(rng.random(U) < p, rng.choice([0.0, 0.0, 0.25, 0.5, 0.99], U), 1.0)
            D.solve(con, load, T, TJ, st, int(rng.integers(2)), IOI=W.IOI, CLOCK=int(rng.integers(0, 999999)), JHOUR=int(rng.integers(8760)), pln=pln, pct=pct)
        rec.unhook()
        if out.nviol > 3:
            return


def whole(job, out):
    """the results printed by a whole run"""
    case = J.case_of(job)
    case["mc"]["II"] = 1
    U = len(case["units"])

    def extra(T, cur, log):
        W = Watch(out, 1)
        drawn = {}

        def a(d, r):
            drawn["pct"] = np.array(r[0], float).ravel()[:U].copy()
            drawn["pln"] = np.array(d["PLNDST"], float).ravel()[:U].copy()

        def check(d, r):
            # the states the list is made of are those drawn for this hour
            if "pct" in drawn and case["mc"]["FREQ"] == 1:
                out.check(np.array_equal(drawn["pct"], np.ravel(d["PCTAVL"])[:U]) and np.array_equal(drawn["pln"], np.ravel(d["PLNDST"])[:U]),
                          "states", "the list is not made of the states of its hour")
            W.after(d, r)

        rec.hook("gstate", None, a)
        rec.hook("tm2", W.before, check)

    e2e.simulate(case, tm2=False, draws=False, annual=False, bound=J.bound_of(case), extra=extra)
    out.count("printed_runs")


def run(job, out):
    rec.load_all()
    J.dispatch(job, out, dict(neutral=neutral, direct=direct, whole=whole))


def jobs(tier, rng):
    q = tier == "quick"
    r = []
    for i, s in enumerate(J.seeds(rng, 10 if q else 80)):
        r.append(dict(k="neutral", s=s, n=4 if q else 6, tw=[["linestates"], []][i % 2], case=dict(
            n_area=2 + i % 3, units_per_area=4, stress=[0.75, 0.85, 1.0][i % 3], maint=["pre", "mix", "none"][i % 3],
            mc=dict(FIN=[2, 3, 6][i % 3], STEP=24, FREQ=[1, 24][i // 2 % 2], CVT=[1e-9, 0.3][i % 2]))))
    for i, s in enumerate(J.seeds(rng, 0 if q else 6)):
        r.insert(0, dict(k="neutral", s=s, n=2, tw=["linestates"], case=dict(n_area=3, units_per_area=4, stress=0.75, mc=dict(FIN=1, STEP=1, FREQ=[24, 1][i % 2], CVT=1e-9))))
    r += [dict(k="whole", s=s, tw=["linestates"], case=dict(n_area=2 + i % 3, units_per_area=5, stress=0.8, maint="pre" if i % 2 else None, mc=dict(FIN=2 if q else 4, STEP=24, FREQ=1, CVT=1e-9)))
          for i, s in enumerate(J.seeds(rng, 8 if q else 40))]
    r += [dict(k="direct", s=s, n=8 if q else 100, steps=12) for s in J.seeds(rng, 4 if q else 16)]
    return r
