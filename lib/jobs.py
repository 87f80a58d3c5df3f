"""shared job bodies for the checks that watch whole runs"""
import numpy as np

from lib import e2e, gen
from lib.common import Stop
from lib.shadow import Shadow


def rng_of(job):
    return np.random.default_rng(job["s"])


def seeds(rng, n):
    return [int(x) for x in rng.integers(1, 2**31 - 1, n)]


def case_of(job):
    """the generated system of a job: {"s": seed, "case": {generator options}, "tw": [tweaks]}"""
    rng = rng_of(job)
    case = gen.random_case(rng, **dict(job.get("case", {})))
    return gen.tweak(case, rng, list(job.get("tw", [])) + (["decimals"] if job["s"] // 7 % 3 == 0 else []))


def hourly(rng, n, tw=(), years=1, **kw):
    """n jobs that follow every hour of a run; every second with daily draws"""
    r = []
    for i, s in enumerate(seeds(rng, n)):
        mc = dict(FIN=years, STEP=1, FREQ=[1, 24][i % 2], **kw.get("mc", {}))
        r.append(dict(k="run", s=s, case=dict({k: v for k, v in kw.items() if k != "mc"}, mc=mc), tw=list(tw)))
    return r


def daily(rng, n, tw=(), years=3, **kw):
    """n jobs in the daily-peak mode"""
    r = []
    for i, s in enumerate(seeds(rng, n)):
        mc = dict(FIN=years, STEP=24, FREQ=[1, 24][i % 2], **kw.get("mc", {}))
        r.append(dict(k="run", s=s, case=dict({k: v for k, v in kw.items() if k != "mc"}, mc=mc), tw=list(tw)))
    return r


def dispatch(job, out, table):
    table[job["k"]](job, out)


def bound_of(case):
    m = case["mc"]
    per = 8760 // m["STEP"] + 53 + 4 + 2
    return m["FIN"] * per + 200


def shadow_run(job, out, tags, case=None, after=None, **kw):
    """one whole run followed by the reference model"""
    case = case if case is not None else case_of(job)
    sh = Shadow(case, out, tags)
    sh.keep_transm = job.get("keep", 0)
    try:
        T = e2e.simulate(case, on_event=sh, bound=bound_of(case), **kw)
    except Stop:
        out.violation("endless", "the run does not end: %d events for %d permitted years" % (
            bound_of(case), case["mc"]["FIN"]))
        return sh, None, case
    m = case["mc"]
    out.count("runs")
    out.count("hours", sh.hours)
    if after:
        after(sh, T, case)
    return sh, T, case


def describe(case):
    m = case["mc"]
    return "%d areas %d units %d lines, %d contracts, %d joint, LS=%s STEP=%s FREQ=%s WK=%s FIN=%s LFU=%s" % (
        len(case["areas"]), len(case["units"]), len(case["lines"]), len(case["fc"]), len(case["od"]),
        m["LS"], m["STEP"], m["FREQ"], m["WK"], m["FIN"], any(a["lfu"] for a in case["areas"]))
