"""peak statistics count the losses at the daily pool peak"""
from checks import c18
from lib import jobs as J

RULE = ("a case is one recorded loss; whether its hour is the hour of the day's pool peak is decided from the input loads "
        "and contracts, a peak loss must be recorded exactly then, once, for the same tier and margins, and the annual peak "
        "counters are compared with an independent tally; also long random sequences recorded directly")
REQUIRE = {"direct": 3000, "loss": 1500, "peak_loss": 400, "years": 8, "direct_T": 500, "direct_G": 500}
TAGS = {"peakhour", "pkstat"}


def run(job, out):
    if job["k"] == "direct":
        return c18.direct(job, out, "pkstat", "P")
    sh, T, c = J.shadow_run(job, out, TAGS)
    out.sample(case=J.describe(c))


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="direct", s=s, seq=20 if q else 300, n=60) for s in J.seeds(rng, 3 if q else 12)]
    kw = dict(mc=dict(CVT=1e-9))
    r += J.hourly(rng, 3 if q else 16, ["contracts"], years=1, n_area=3, units_per_area=3, stress=0.97)
    r += J.hourly(rng, 1 if q else 8, [], years=2, n_area=2, units_per_area=4, stress=0.9, lfu=False)
    r += J.hourly(rng, 2 if q else 12, ["contracts", "lfu", "rollpeaks"], years=1, n_area=2, units_per_area=3, stress=0.97)
    r += J.daily(rng, 2 if q else 12, ["linestates", "rollpeaks", "lfu"], years=3 if q else 10, stress=0.95, n_area=3, units_per_area=4, **kw)
    r += J.daily(rng, 4 if q else 30, ["linestates"], years=3 if q else 10, stress=0.9, n_area=4, units_per_area=4, **kw)
    r += J.daily(rng, 1 if q else 8, ["linestates"], years=2 if q else 6, stress=0.95, n_area=9, units_per_area=4, **kw)
    return r
