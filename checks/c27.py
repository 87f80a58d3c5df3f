"""every valid input is simulated to the end with finite results"""
import os
import re

import numpy as np

from lib import e2e, gen, jobs as J, roll
from lib.common import Stop

RULE = ("a case is one whole run of an extreme but valid system; it must end with one final report within the permitted number of events "
        "and every margin, flow, total and printed number must be finite; non-trivial cases have distinct combinations of extremes")
REQUIRE = {"runs": 60, "reports": 60, "one_area": 5, "no_units": 5, "no_load": 5, "no_files": 5, "extreme_rates": 8, "hourly": 2,
           "both_sharing": 1, "many_areas": 2, "network": 100, "zero_shape": 3, "unit_shape": 1, "all_out": 2,
           "large": 2, "large_network": 10, "many_contracts": 2, "many_units": 2}


def extreme(case, rng, kind):
    ar, un, tl, m = case["areas"], case["units"], case["lines"], case["mc"]
    n = len(ar)
    for k in kind:
        if k == "no_units":
            a = int(rng.integers(n))
            if n == 1 and rng.random() < 0.5:
                case["units"] = un[:1]
            else:
                case["units"] = [u for u in un if u["loc"] != a] or un[:1]
            case["od"] = []
            un = case["units"]
        elif k == "no_load":
            ar[int(rng.integers(n))]["peak"] = 0
        elif k == "zero_shape":  # an area without any load in its load shape
            a = int(rng.integers(n))
            case["shapes"] = np.array(case["shapes"])
            case["shapes"][a] = 0
            if rng.random() < 0.5:
                ar[a]["peak"] = 0
        elif k == "unit_shape":
            case["shapes"] = np.round(np.array(case["shapes"]) / 12000.0, 6) if rng.random() < 0.5 else np.array(case["shapes"]) * 10
        elif k == "tiny_load":
            for a in ar:
                a["peak"] = 1
        elif k == "huge_load":
            for a in ar:
                a["peak"] = a["peak"] * 4 + 50
        elif k == "huge":
            for a in ar:
                a["peak"] = a["peak"] * 40
            for u in un:
                u["cap"] = [c * 40 for c in u["cap"]]
        elif k == "always_out":
            for u in un:
                u.update(FOR=1, dfor=0)
        elif k == "never_out":
            for u in un:
                u.update(FOR=0, dfor=0)
        elif k == "no_lines_fail":
            for t in tl:
                t["st"] = [(s[0], s[1], s[2], 1.0 if i == 0 else 0.0) for i, s in enumerate(t["st"])]
        elif k == "lines_dead":
            for t in tl:
                t["st"] = [(s[0], s[1], s[2], 1.0 if i == 2 else 0.0) for i, s in enumerate(t["st"])]
        elif k == "no_capacity":
            for t in tl:
                t["st"] = [(s[0], 0.0, 0.0, s[3]) for s in t["st"]]
        elif k == "all_out":  # every unit on outage in the same weeks, outages of some overlap
            b = int(rng.integers(1, 53))
            for u in un:
                u.update(pa=1, b1=b, d1=int(rng.integers(1, 4)), b2=int(rng.choice([0, b])), d2=0)
                u["d2"] = int(rng.integers(1, 4)) if u["b2"] else 0
        elif k == "zero_units":
            for u in un:
                if rng.random() < 0.4:
                    u["cap"] = [0, 0, 0, 0]
        elif k == "no_limit":
            for a in ar:
                a["flow"] = 0.0
        elif k == "many_contracts":  # between more pairs of areas than the usual maximum
            pr = [(a, b) for a in range(n) for b in range(n) if a != b]
            case["fc"] = []
            for q in rng.permutation(len(pr))[:int(rng.integers(61, len(pr) + 1))]:
                b = int(rng.integers(1, 366))
                case["fc"].append(dict(a=pr[q][0], b=pr[q][1], beg=b, end=int(rng.integers(b, 366)), mw=int(rng.integers(1, 10))))
        elif k in ("no_files", "one_area", "many_areas", "large", "many_units"):
            pass
        else:
            gen.tweak(case, rng, [k])
    return case


def finite(out, what, x):
    x = np.asarray(x, float)
    if not np.isfinite(x).all():
        out.violation("not-finite", "%s holds %s" % (what, x.ravel()[~np.isfinite(x.ravel())][:3]))
        return False
    return True


def run(job, out):
    rng = J.rng_of(job)
    case = extreme(gen.random_case(rng, **job["case"]), rng, job["x"])
    gen.write_case(case, "case")
    path = os.path.abspath("case")
    if "no_files" in job["x"]:
        for f, k in (("ZZFC", "fc"), ("ZZOD", "od"), ("ZZDD", None)):
            if k is None or not case[k]:
                os.remove(os.path.join(path, f + ".csv"))
    mc = case["mc"]
    bound = J.bound_of(case)
    ny, left = [0], [job.get("solutions", 0)]

    def on_event(ev, T):
        if out.nviol:
            raise Stop
        for c in ev.calls:
            if c["f"] == "transm":
                out.count("network")
                finite(out, "surplus after the network solution in hour %s" % c["JHOUR"], c["SADJ"])
                finite(out, "net flows in hour %s" % c["JHOUR"], c["FLOW"])
                if "large" in job["x"]:
                    out.count("large_network")
                    left[0] -= 1
                    if not left[0]:
                        raise Stop
            elif c["f"] in ("hrstat", "pkstat"):
                out.count("losses")
                finite(out, "margin", c["MARGIN"])
            elif c["f"] == "sumcap":
                finite(out, "capacity", c["SYSCON"])
                finite(out, "owned capacity", c["SYSOWN"])
            elif c["f"] == "year":
                ny[0] += 1
                for k in e2e.TOTALS:
                    finite(out, k, c["tot"][k])
        out.count("events")

    what = "%s with %s" % (J.describe(case), "+".join(job["x"]) or "nothing special")
    try:
        T = e2e.simulate(None, path=path, on_event=on_event, bound=bound)
    except Stop:
        if "large" in job["x"] and not out.nviol and not left[0]:  # a long run: only its beginning
            out.count("large")
            out.case((tuple(job["x"]), len(case["areas"]), len(case["lines"]), mc["LS"]))
            out.sample(case=what)
            return
        if not out.nviol:
            out.violation("endless", "the run does not end within %d events: %s" % (bound, what))
        return
    out.count("runs")
    out.check(1 <= ny[0] <= mc["FIN"], "years", "%d years are simulated, %d are permitted: %s" % (ny[0], mc["FIN"], what))
    if out.check(T.reports == [ny[0]], "reports", "final reports after years %s of %d: %s" % (T.reports, ny[0], what)):
        out.count("reports")
    for k in ("HRLOAD", "DYLOAD", "WPEAK", "RATES", "PROBG", "CAPOWN", "BLPA", "BN", "SUSTAT", "FCTERR"):
        finite(out, k, T.data[k])
    for f in ("output.txt", "traout.txt "):
        if os.path.exists(f):
            t = open(f).read()
            bad = re.search(r"(?i)(?<![a-z])[-+]?(nan|inf)(?![a-z])", t)
            out.check(not bad, "printed-nan", "%s states %s: %s" % (f.strip(), t[max(0, (bad.start() if bad else 0) - 60): bad.end() if bad else 0], what))
    f = roll.split_final(open("output.txt").read())
    if out.check(len(f) == 1, "reports", "%d final reports in the output: %s" % (len(f), what)):
        s = roll.summary_rows(f[0][1], None, mc["STEP"] == 1)
        out.check(len(s) == len(case["areas"]) + 1, "summary", "summary of %d rows: %s" % (len(s), what))
        d = roll.dist_tables(f[0][1])
        out.check(len(d) == len(case["areas"]), "tables", "%d distribution tables: %s" % (len(d), what))
    for k in job["x"]:
        out.count(k)
    out.count("extreme_rates", int("rates" in job["x"] or "linerates" in job["x"]))
    out.count("hourly", int(mc["STEP"] == 1))
    out.count("both_sharing", mc["LS"])
    out.case((tuple(job["x"]), len(case["areas"]), mc["LS"], mc["STEP"], mc["FREQ"], mc["IJ"], mc["II"]))
    out.sample(case=what, events=T.n, years=ny[0])


KINDS = [[], ["one_area"], ["no_units"], ["no_load"], ["no_files"], ["rates"], ["linerates"], ["always_out"], ["never_out"], ["no_lines_fail"],
         ["lines_dead"], ["tiny_load"], ["huge_load"], ["huge"], ["no_capacity"], ["zero_units"], ["many_areas"], ["weeks", "season"], ["outages"], ["all_out"],
         ["contracts"], ["owners"], ["shares", "owners"], ["lfu"], ["no_limit"], ["one_area", "no_files"], ["one_area", "rates"], ["one_area", "no_load"],
         ["one_area", "no_units"], ["no_units", "contracts"], ["no_load", "no_units"], ["rates", "linerates", "contracts"], ["always_out", "no_files"],
         ["huge_load", "linestates", "contracts"], ["never_out", "no_lines_fail", "no_files"], ["lfu", "huge_load"], ["tiny_load", "no_units"],
         ["zero_shape"], ["unit_shape"], ["zero_shape", "lfu"], ["one_area", "all_out"], ["many_areas", "many_contracts"], ["large"], ["many_units"]]


def jobs(tier, rng):
    q = tier == "quick"
    r = []
    n = 2 * len(KINDS) if q else 20 * len(KINDS)
    for i, s in enumerate(J.seeds(rng, n)):
        x = KINDS[i % len(KINDS)]
        if i >= len(KINDS) * 4:
            x = sorted(set(x) | set(KINDS[int(rng.integers(len(KINDS)))]) - {"one_area", "many_areas", "many_contracts", "large", "many_units"})
        a = 1 if "one_area" in x else int(rng.integers(9, 14)) if "many_areas" in x else int(rng.integers(20, 25)) if "large" in x else int(rng.integers(2, 5))
        hourly = i % 18 == 5 and not set(x) & {"many_areas", "large", "many_units"}
        mc = dict(FIN=1 if hourly else int(rng.integers(1, 4)), STEP=1 if hourly else 24, FREQ=int(rng.choice([1, 24])), LS=int(rng.integers(2)),
                  II=int(rng.integers(2)), IJ=int(rng.integers(2)), IR=int(rng.integers(2)), IN=int(rng.integers(1, 4)),
                  D=int(rng.integers(2)), M=int(rng.integers(2)), MAXE=int(rng.choice([0, 1, 19, 20, 1000, 10**6])),
                  CVT=float(rng.choice([0, 0.025, 0.3])), KVL=int(rng.integers(1, a + 1)))
        if set(x) & {"huge_load", "always_out", "no_units", "no_load", "many_areas", "large", "zero_units", "rates", "no_capacity", "many_units"}:
            mc["FIN"] = 1 if q else 2 - hourly
        case = dict(n_area=a, units_per_area=int(rng.integers(1, 5)), stress=float(rng.uniform(0.6, 1.1) if not hourly else 0.75), mc=mc)
        if "one_area" in x:
            case.update(lines=[])
        if "large" in x:  # more lines and areas than the original's arrays held
            e = [(k, k + 1) for k in range(a - 1)]
            while len(e) < 45 + i // len(KINDS) % 16:
                p, o = sorted(int(k) for k in rng.choice(a, 2, replace=False))
                if (p, o) not in e:
                    e.append((p, o))
            case.update(lines=e, stress=float(rng.uniform(1.0, 1.2)), maint="none")
        if "many_units" in x:  # more units in one area than the original's arrays held
            case.update(n_area=1, lines=[], units_per_area=int(rng.integers(501, 540)), stress=float(rng.uniform(0.9, 1.0)),
                        maint=("mix", "auto", "pre")[i // len(KINDS) % 3])
            mc.update(KVL=1)
        if "no_files" in x:
            case.update(contracts=False, owners=False)
        r.append(dict(s=s, x=x, case=case, solutions=(8 if q else 40) * ("large" in x)))
    return r
