"""the run stops when the chosen index has converged, and not before"""
from lib import roll

RULE = ("a case is one whole run with made up annual losses; the year it ends with is compared with the stopping rule evaluated on the "
        "chosen statistic; non-trivial cases have distinct choices of the statistic and end by convergence, after the fifth year or at the limit")
REQUIRE = {"by_convergence": 15, "by_limit": 8, "at_five": 3, "after_five": 2, "zero_mean": 2, "default_limit": 10}


def run(job, out):
    o = roll.run(job, out)
    if o is None:
        return
    case, m, B, years, T, txt = o
    mc = case["mc"]
    n, sure = B.stop(mc)
    what = "statistic %s %s %s %s area %d, CVTEST %g, at most %d years" % (
        {1: "area", 2: "pool"}[mc["WHERE"]], {1: "hourly", 2: "peak"}[mc["WHEN"]], {1: "LOLE", 2: "EUE"}[mc["KVS"]],
        {1: "weighted", 2: "unmodified"}[mc["KVT"]], mc["KVL"], mc["CVT"], mc["FIN"])
    if not sure:
        out.count("borderline")
        return
    x = B.chosen(mc)
    out.check(n == len(years), "stop", "run ends with year %d, expected %s (%s; yearly values %s)" % (len(years), n, what, x))
    out.check(T.reports == [len(years)], "reports", "final reports after years %s of %d years" % (T.reports, len(years)))
    f = roll.split_final(txt)
    out.check([k for k, _ in f] == [len(years)], "reports", "final reports in the output: %s of %d years" % ([k for k, _ in f], len(years)))
    for y in years[:-1]:
        out.check(not y.get("RFLAG"), "flag", "the run goes on after it was declared finished")
    conv = n is not None and n < mc["FIN"]
    out.count("by_convergence" if conv else "by_limit")
    out.count("at_five", int(conv and n == 5))
    out.count("after_five", int(conv and n > 5))
    out.count("zero_mean", int(sum(x) == 0))
    out.count("default_limit", int(mc["CVT"] == 0))
    out.case((mc["WHERE"], mc["WHEN"], mc["KVS"], mc["KVT"], m.nf, conv, n))
    out.sample(rule=what, values=x, ended=len(years))


def jobs(tier, rng):
    q = tier == "quick"
    r = []
    for rep in range(1 if q else 12):
        for k in range(16):
            for i in range(3):
                style = ["calm", "mix", "calm"][i]
                r.append(dict(s=int(rng.integers(1, 2**31)), style=style, lfu=bool((k + i + rep) % 2), IJ=0,
                              A=int(rng.integers(1, 5)),
                              mc=dict(WHERE=1 + k % 2, WHEN=1 + k // 2 % 2, KVS=1 + k // 4 % 2, KVT=1 + k // 8, FIN=int(rng.integers(6, 20)),
                                      CVT=float(round(rng.uniform(0.03, 0.2), 3) if style == "calm" else rng.choice([0.25, 0.4, 0.6, 0.02])))))
            r.append(dict(s=int(rng.integers(1, 2**31)), style="steady", lfu=bool((k + rep) % 2), IJ=0, A=int(rng.integers(1, 5)),
                          mc=dict(WHERE=1 + k % 2, WHEN=1 + k // 2 % 2, KVS=1 + k // 4 % 2, KVT=1 + k // 8, FIN=24, CVT=0.0)))
        for i in range(10):
            r.append(dict(s=int(rng.integers(1, 2**31)), style=["none", "fixed", "rare", "none", "fixed"][i % 5], lfu=bool(i % 2), IJ=0,
                          mc=dict(FIN=int(rng.integers(1, 9)), CVT=float(rng.choice([0.05, 0.3, 0.9])))))
        for i in range(6):  # limits far below the default
            r.append(dict(s=int(rng.integers(1, 2**31)), style="steady", lfu=bool(i % 2), IJ=0, A=int(rng.integers(1, 5)),
                          mc=dict(WHERE=1 + i % 2, WHEN=1 + i // 2 % 2, KVS=1 + i // 3 % 2, KVT=1 + i % 2, FIN=9,
                                  CVT=float([1e-4, 5e-4, 2e-3, 1e-3, 3e-5, 9e-4][i]))))
        r.append(dict(s=int(rng.integers(1, 2**31)), style="calm", hourly=True, lfu=True, IJ=0, mc=dict(FIN=7, CVT=0.3)))
    for i in range(6 if q else 48):  # large amounts of energy
        r.append(dict(s=int(rng.integers(1, 2**31)), style="vast", lfu=bool(i % 2), IJ=0, A=int(rng.integers(1, 5)),
                      mc=dict(WHERE=1 + i % 2, WHEN=1 + i // 2 % 2, KVS=2, KVT=1 + i // 3 % 2, FIN=20, CVT=float(round(rng.uniform(0.02, 0.05), 3)))))
    for i in range(2 if q else 16):  # long runs, most of which converge late
        r.append(dict(s=int(rng.integers(1, 2**31)), style="calm", lfu=bool(i % 2), IJ=0, A=1 + i % 2,
                      mc=dict(WHERE=1 + i // 2 % 2, WHEN=1 + i // 4 % 2, KVS=1 + i // 8 % 2, KVT=2 - i % 2, FIN=130, CVT=float(round(rng.uniform(0.03, 0.09), 3)))))
    return r
