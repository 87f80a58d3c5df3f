"""a run resumed from a snapshot ends like the uninterrupted run"""
import copy
import inspect
import os
import shutil

import numpy as np

from lib import e2e, gen, jobs as J, rec, roll
from lib.common import isolated

RULE = ("a case is one snapshot of a run: a new process takes it over and goes on, and its remaining years, totals, later snapshots, "
        "convergence and final report are compared with the uninterrupted run; snapshots of the last permitted year are continued "
        "under a larger limit; non-trivial cases have losses before and after the snapshot")
REQUIRE = {"ended": 5, "resumed": 15, "extended": 3, "snapshots": 20, "converged": 2, "loss_before_after": 8, "hourly": 1}
FILE = "DUMP.pkl"


def install(snap):
    """the control loop starts with the values of the snapshot"""
    f = rec.fn("contrl")
    names = rec.SIG["contrl"][1]
    bind = rec.binder(f, names)
    par = set(inspect.signature(f).parameters)

    def w(*a, **k):
        d = bind(a, k)
        s = rec.fn("rstart")(snap)
        new = dict(s)
        new["INTVT"] = int(s["INTVT"]) + int(d["INTV"]) if int(s["INTVT"]) == int((s["CLOCK"] + 1) / 8760) else int(s["INTVT"])
        new["IQ"], new["JHOUR"] = 3, 8759
        for n in names:
            if n in new and n != "ATRIB":  # the kind of the last event only; the next removal sets all of it
                d[n] = new[n]
        d["ATRIB"][0], d["ATRIB"][1] = s["CLOCK"], 4
        d = {n: d[n] for n in names}
        return f(**d) if set(names) <= par else f(*d.values())

    rec.ORIG.setdefault("contrl", f)
    rec.replace(f, w)


def go(case, snap, tag):
    """one run in this process: what can be observed of its years"""
    years = []

    def on_event(ev, T):
        for c in ev.calls:
            if c["f"] == "year":
                snaps = [x for x in ev.calls if x["f"] == "intm"]
                n = int((c["CLOCK"] + 1) / 8760)
                years.append(dict(n=n, annual={k: np.asarray(v).tolist() for k, v in c["annual"].items()},
                                  tot={k: np.asarray(v).tolist() for k, v in c["tot"].items()},
                                  flag=int(c["RFLAG"]), snap=len(snaps)))
                if snaps:
                    shutil.copy(FILE, "%s-%d.pkl" % (tag, n))

    for f in (FILE, "output.txt"):
        os.path.exists(f) and os.remove(f)
    T = e2e.simulate(case, on_event=on_event, draws=False, bound=J.bound_of(case), extra=(lambda *a: install(snap)) if snap else None)
    txt = open("output.txt").read()
    n = [k for k, _ in roll.split_annual(txt)]
    tabs = [t for _, t in roll.split_annual(txt)]
    f = roll.split_final(txt)
    dump = {}
    for y in years:
        if y["snap"]:
            s = rec.fn("rstart")("%s-%d.pkl" % (tag, y["n"]))
            dump[y["n"]] = {k: (np.asarray(v).tolist() if isinstance(v, (np.ndarray, list, tuple)) else float(v)) for k, v in s.items()}
    if tabs:
        tabs[-1] = tabs[-1].split("TABLE")[0]
    return dict(years=years, annual=list(zip(n, tabs)), final=[t for _, t in f], title=[k for k, _ in f], reports=T.reports, dump=dump)


def compare(out, A, B, k, what):
    """A uninterrupted, B continued after year k"""
    a = [y for y in A["years"] if y["n"] > k]
    b = B["years"]
    if not out.check([y["n"] for y in a] == [y["n"] for y in b], "years", "%s: continues with years %s, the uninterrupted run with %s" % (
            what, [y["n"] for y in b], [y["n"] for y in a])):
        return
    for x, y in zip(a, b):
        for q in ("annual", "tot"):
            for key in x[q]:
                if x[q][key] != y[q][key]:
                    out.violation("differs-" + key, "%s: %s after year %d is %s, uninterrupted %s" % (what, key, x["n"], y[q][key], x[q][key]))
                    return
        out.check(x["flag"] == y["flag"], "flag", "%s: year %d ends the run: %s, uninterrupted: %s" % (what, x["n"], y["flag"], x["flag"]))
        out.check(x["snap"] == y["snap"], "snapshots", "%s: %d snapshots after year %d, uninterrupted %d" % (what, y["snap"], x["n"], x["snap"]))
    out.check(A["reports"] == B["reports"], "reports", "%s: reports after %s, uninterrupted after %s" % (what, B["reports"], A["reports"]))
    out.check(A["final"] == B["final"], "report-differs", "%s: the final report differs from that of the uninterrupted run" % what)
    at = [t for t in A["annual"] if t[0] > k]
    out.check(at == B["annual"], "tables-differ", "%s: the tables of the remaining replications differ" % what)
    for n in A["dump"]:
        if n > k and n in B["dump"]:
            out.check(A["dump"][n] == B["dump"][n], "snapshot-differs", "%s: the snapshot of year %d differs: %s" % (
                what, n, [z for z in A["dump"][n] if A["dump"][n][z] != B["dump"][n].get(z)][:5]))


def losses(years):
    return any(np.any(y["annual"][k]) for y in years for k in ("LOLGHP", "LOLTHP"))


def run(job, out):
    case = J.case_of(job)
    mc = case["mc"]
    k, A = isolated(go, case, None, "full")
    if k != "ok":
        out.violation(k, "the uninterrupted run fails: %s" % A)
        return
    ny = len(A["years"])
    last, every = mc["FIN"], mc["IN"]
    want = [n for n in range(1, ny + 1) if n % every == 0 or n == last]
    have = [y["n"] for y in A["years"] if y["snap"]]
    out.check(want == have and all(y["snap"] <= 1 for y in A["years"]), "when", "snapshots after years %s of %d, requested every %d of at most %d" % (have, ny, every, last))
    out.count("runs")
    out.count("snapshots", len(have))
    out.count("converged", int(ny < last))
    out.count("hourly", int(mc["STEP"] == 1))
    big = None
    for n in have:
        y = [y for y in A["years"] if y["n"] == n][0]
        for key, v in y["tot"].items():
            if key in A["dump"][n]:
                x = A["dump"][n][key]
                if not out.check(np.array_equal(np.ravel(x), np.ravel(v)), "content-" + key, "snapshot of year %d holds %s %s, the run %s" % (n, key, x, v)):
                    return
        snap = os.path.abspath("full-%d.pkl" % n)
        if n < ny:
            k, B = isolated(go, case, snap, "res%d" % n)
            what = "resumed after year %d of %d (snapshots every %d)" % (n, ny, every)
            if not out.check(k == "ok", k, "%s: %s" % (what, B)):
                return
            compare(out, A, B, n, what)
            out.count("resumed")
            nt = losses([y for y in A["years"] if y["n"] <= n]) and losses([y for y in A["years"] if y["n"] > n])
        elif n == last and not A["years"][-1]["flag"] or n == last and ny == last:
            # nothing is left to be simulated: only the final report is written (again)
            k, B = isolated(go, case, snap, "end%d" % n)
            what = "resumed after the last permitted year %d" % n
            if not out.check(k == "ok", k, "%s: %s" % (what, B)):
                return
            out.check(not B["years"], "years", "%s: continues with years %s" % (what, [y["n"] for y in B["years"]]))
            if not out.check(A["final"] == B["final"], "report-differs", "%s: the final report differs from that of the uninterrupted run: %s reports" % (what, len(B["final"]))):
                out.sample(a=A["final"], b=B["final"])
                return
            out.count("ended")
            more = copy.deepcopy(case)
            more["mc"]["FIN"] = last + 2
            if big is None:
                k, big = isolated(go, more, None, "big")
                if k != "ok":
                    out.violation(k, "the longer run fails: %s" % big)
                    return
            if len(big["years"]) <= n or big["years"][n - 1]["flag"]:
                continue  # converged in the last permitted year
            k, B = isolated(go, more, snap, "ext%d" % n)
            what = "extended after the last permitted year %d" % n
            if not out.check(k == "ok", k, "%s: %s" % (what, B)):
                return
            # the longer run writes no snapshot after year n unless it is requested
            compare(out, big, B, n, what)
            out.count("extended")
            nt = losses(big["years"][:n]) and losses(big["years"][n:])
        else:
            continue
        out.count("loss_before_after", int(nt))
        out.case((job["s"], n) if nt else None)
        if out.nviol:
            return
    out.sample(case=J.describe(case), snapshots=have, years=ny)


def jobs(tier, rng):
    q = tier == "quick"
    r = []
    for i, s in enumerate(J.seeds(rng, 16 if q else 160)):
        r.append(dict(s=s, tw=["linestates"] if i % 2 else [], case=dict(
            n_area=1 + i % 4, units_per_area=4, stress=0.88, lfu=bool(i % 3 == 0), contracts=bool(i % 4 == 3), owners=bool(i % 5 == 1),
            maint="pre" if i % 2 else "mix",
            mc=dict(FIN=[4, 7, 9, 6][i % 4], STEP=24, FREQ=[1, 24][i // 2 % 2], IN=[1, 2, 3, 10, 2][i % 5], IJ=i % 2, CVT=[1e-9, 0.4, 0.25][i % 3],
                    WHERE=1 + i % 2, WHEN=1 + i // 2 % 2, KVS=1 + i // 3 % 2, KVT=1 + i // 4 % 2))))
    for i, s in enumerate(J.seeds(rng, 1 if q else 10)):
        r.insert(0, dict(s=s, tw=[], case=dict(n_area=2, units_per_area=4, stress=0.9, lfu=bool(i % 2), contracts=True,
                                               mc=dict(FIN=2 + i % 2, STEP=1, FREQ=[24, 1][i % 2], IN=1, CVT=1e-9))))
    for i, s in enumerate(J.seeds(rng, 1 if q else 6)):  # snapshots of late years
        r.insert(0, dict(s=s, tw=[], case=dict(n_area=1, units_per_area=4, stress=0.9, lfu=bool(i % 2), maint="pre",
                                               mc=dict(FIN=55, STEP=24, FREQ=1, IN=25, IJ=1, CVT=1e-9))))
    return r
