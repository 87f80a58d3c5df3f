"""every hour of every year exactly once and in order, with its own load"""
from lib import jobs as J

RULE = ("a case is one evaluated hour (or day) of a run; non-trivial runs are those with loss hours (the evaluated "
        "hour's own load is visible in the network arguments and in the recorded margins) and year changes")
REQUIRE = {"hours": 15000, "years": 6, "loss": 30, "transm": 30}
TAGS = {"hours", "load", "decision", "hrstat"}


def run(job, out):
    sh, T, c = J.shadow_run(job, out, TAGS)
    m = c["mc"]
    if T is None:
        return
    per = 8760 // m["STEP"]
    y = len(sh.years)
    out.check(sh.hours >= y * per and y >= 1, "hours-missing", "%d steps for %d closed years" % (sh.hours, y))
    # the run may only go on past its last year by the events that are due at its very end
    out.check(sh.hours <= y * per + 2 and (sh.hours - y * per) * m["STEP"] <= 1 + m["STEP"], "hours-extra",
              "%d steps evaluated for %d closed years" % (sh.hours, y))
    out.sample(case=J.describe(c), hours=sh.hours, years=y)


def jobs(tier, rng):
    q = tier == "quick"
    kw = dict(n_area=2, units_per_area=3)
    r = J.hourly(rng, 3 if q else 12, years=2 if q else 3, stress=0.95, lfu=False, mc=dict(CVT=1e-9), **kw)
    r += J.daily(rng, 4 if q else 24, years=3 if q else 9, stress=0.97, mc=dict(CVT=1e-9), **kw)
    r += J.hourly(rng, 1 if q else 6, ["contracts", "rollpeaks", "lfu"], years=1, stress=0.97, **kw)
    r += J.daily(rng, 2 if q else 12, ["rollpeaks"], years=3 if q else 9, stress=0.97, mc=dict(CVT=1e-9), **kw)
    r += J.daily(rng, 1 if q else 6, ["rollpeaks"], years=110, mc=dict(CVT=1e-9), n_area=1, units_per_area=2, stress=0.95, lfu=False)
    r += J.daily(rng, 1 if q else 8, ["contracts"], years=3, stress=0.97, n_area=3)
    return r
