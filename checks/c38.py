"""what the program reports on the screen while it runs: the yearly progress lines"""
import contextlib
import io
import re

import numpy as np

from lib import roll

RULE = ("a case is one whole run with made up annual losses; every progress line it prints is compared with the bookkeeping of the years: "
        "number of the year, sum so far, value of the year, mean, ratio of the standard error to the limit, and the notice of convergence "
        "with its clock, standard error and limit; non-trivial cases have distinct choices of the statistic and runs that converge and that do not")
REQUIRE = {"lines": 250, "converged": 15, "notconverged": 15, "zero_mean": 2, "default_limit": 8, "hourly": 2, "below_one": 15}

LINE = re.compile(r"(\d+)\s*-th\s+REPLICATION\s*;?\s*SUM\s*=\s*(\S+?)[,;]?\s+NEW\s*=\s*(\S+?)[,;]?\s+MEAN\s*=\s*(\S+?)[,;]?\s+CONVERGENCE\s*=\s*(\S+)", re.I)
DONE = re.compile(r"SIMULATION\s+CONVERGED", re.I)
TAIL = re.compile(r"CLOCK\s*=\s*(\S+?)[,;]?\s+\W?\s*STD\s*=\s*(\S+?)[,;]?\s+TEST\s*=\s*(\S+)", re.I)


def near(a, b, tol=1e-9, scale=1.0):
    try:
        a = float(a)
    except ValueError:
        return False
    return bool(abs(a - b) <= tol * max(1.0, abs(b), scale))


def run(job, out):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        o = roll.run(job, out)
    if o is None:
        return
    case, m, B, years, T, txt = o
    mc = case["mc"]
    x = B.chosen(mc)
    n, sure = B.stop(mc)
    if not sure:
        out.count("borderline")
        return
    scr = buf.getvalue()
    what = "statistic %s %s %s %s area %d, CVTEST %g, %d years %s" % (
        {1: "area", 2: "pool"}[mc["WHERE"]], {1: "hourly", 2: "peak"}[mc["WHEN"]], {1: "LOLE", 2: "EUE"}[mc["KVS"]],
        {1: "weighted", 2: "unmodified"}[mc["KVT"]], mc["KVL"], mc["CVT"], len(x), [round(v, 4) for v in x[-8:]])
    got = [(g.start(), g.groups()) for g in LINE.finditer(scr)]
    lim = mc["CVT"] or 0.025
    years_ = [int(g[0]) for _, g in got]
    out.check(years_ == list(range(5, len(x) + 1)), "years", "progress lines for the years %s of a run of %d years, expected one for every year from the fifth (%s)" % (
        years_, len(x), what))
    below = []
    for _, (k, s, new, mean, conv) in got:
        k = int(k)
        if not 1 <= k <= len(x):
            continue
        v = np.array(x[:k])
        tot, mu = float(v.sum()), float(v.mean())
        se = float(np.sqrt(max((v ** 2).mean() - mu ** 2, 0) / k))
        # the variance is a difference of squares: rounding of its terms goes through the square root
        tse = float(np.sqrt(1e-13 * max((v ** 2).mean(), 1e-300) / k)) if se * se * k < 1e-6 * (v ** 2).mean() else 1e-7 * se
        t = lim * mu
        name = "line of year %d (%s)" % (k, what)
        out.check(near(s, tot), "sum", "%s: sum %s, expected %.10g" % (name, s, tot))
        out.check(near(new, float(v[-1]), scale=tot), "new", "%s: value of the year %s, expected %.10g" % (name, new, v[-1]))
        out.check(near(mean, mu), "mean", "%s: mean %s, expected %.10g" % (name, mean, mu))
        c = se / t if t else 0.0
        try:
            ok = abs(float(conv) - c) <= 1e-7 * max(1, c) + (tse / t if t else 0)
        except ValueError:
            ok = False
        out.check(ok, "convergence", "%s: convergence %s, expected %.10g" % (name, conv, c))
        if t and c < 1:
            below.append(k)
        out.count("lines")
        out.count("zero_mean", int(mu == 0))
    # the notice: exactly when the ratio is below one, as the last thing of the run
    done = [g.start() for g in DONE.finditer(scr)]
    out.check(len(done) == len(below), "notice", "%d notices of convergence, ratio below one in the years %s (%s)" % (len(done), below, what))
    if done and got:
        out.check(done[0] > got[-1][0], "notice-place", "a progress line follows the notice of convergence (%s)" % what)
        tail = TAIL.search(scr, done[0])
        if out.check(tail is not None, "notice-values", "no clock, standard error and limit with the notice of convergence (%s)" % what):
            v = np.array(x)
            mu = v.mean()
            se = float(np.sqrt(max((v ** 2).mean() - mu ** 2, 0) / len(v)))
            tse = float(np.sqrt(1e-13 * max((v ** 2).mean(), 1e-300) / len(v))) + 1e-7 * se
            ck, st, te = tail.groups()
            out.check(near(ck, 8760.0 * len(x), tol=1e-3) and abs(float(ck) - 8760 * len(x)) < 24, "notice-values",
                      "converged at hour %s, the run has %d years" % (ck, len(x)))
            out.check(abs(float(st) - se) <= tse and near(te, lim * mu), "notice-values",
                      "converged with standard error %s and limit %s, expected %.10g and %.10g (%s)" % (st, te, se, lim * mu, what))
    out.count("below_one", len(below))
    out.count("converged" if below else "notconverged")
    out.count("default_limit", int(mc["CVT"] == 0))
    out.case((mc["WHERE"], mc["WHEN"], mc["KVS"], mc["KVT"], m.nf, bool(below), len(x)))
    out.sample(rule=what, lines=[g for _, g in got][-2:], converged=bool(below))


def jobs(tier, rng):
    q = tier == "quick"
    r = []
    for rep in range(1 if q else 12):
        for k in range(16):
            for i in range(3):
                style = ["calm", "mix", "wild"][i]
                r.append(dict(s=int(rng.integers(1, 2**31)), style=style, lfu=bool((k + i + rep) % 2), IJ=0, A=int(rng.integers(1, 5)),
                              mc=dict(WHERE=1 + k % 2, WHEN=1 + k // 2 % 2, KVS=1 + k // 4 % 2, KVT=1 + k // 8, FIN=int(rng.integers(6, 22)),
                                      CVT=float(round(rng.uniform(0.03, 0.2), 3) if style == "calm" else rng.choice([0.25, 0.4, 0.02])))))
            r.append(dict(s=int(rng.integers(1, 2**31)), style="steady", lfu=bool((k + rep) % 2), IJ=0, A=int(rng.integers(1, 5)),
                          mc=dict(WHERE=1 + k % 2, WHEN=1 + k // 2 % 2, KVS=1 + k // 4 % 2, KVT=1 + k // 8, FIN=20, CVT=0.0)))
        for i in range(8):
            r.append(dict(s=int(rng.integers(1, 2**31)), style=["none", "fixed", "rare", "none"][i % 4], lfu=bool(i % 2), IJ=0,
                          mc=dict(FIN=int(rng.integers(4, 10)), CVT=float(rng.choice([0.05, 0.3, 0.9])))))
        for i in range(6):  # limits far below the default
            r.append(dict(s=int(rng.integers(1, 2**31)), style="steady", lfu=bool(i % 2), IJ=0, A=int(rng.integers(1, 5)),
                          mc=dict(WHERE=1 + i % 2, WHEN=1 + i // 2 % 2, KVS=1 + i // 3 % 2, KVT=1 + i % 2, FIN=9,
                                  CVT=float([1e-4, 5e-4, 2e-3, 1e-3, 3e-5, 9e-4][i]))))
        for i in range(3):
            r.append(dict(s=int(rng.integers(1, 2**31)), style="calm", hourly=True, lfu=bool(i % 2), IJ=0, mc=dict(FIN=7, CVT=0.02)))
    for i in range(2 if q else 16):  # long runs, most of which converge late
        r.append(dict(s=int(rng.integers(1, 2**31)), style="calm", lfu=bool(i % 2), IJ=0, A=1 + i % 2,
                      mc=dict(WHERE=1 + i // 2 % 2, WHEN=1 + i // 4 % 2, KVS=1 + i // 8 % 2, KVT=2 - i % 2, FIN=130, CVT=float(round(rng.uniform(0.03, 0.09), 3)))))
    return r
