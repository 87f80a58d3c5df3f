"""the table of each replication states that year's results"""
from lib import roll

RULE = ("a case is one row of a table per replication; every printed number is compared with the year's counters; each run is repeated "
        "without the tables and must give the same years; non-trivial rows have losses")
REQUIRE = {"tables": 30, "rows": 1000, "without": 5, "hourly": 2, "daily": 5, "tiers5": 3, "tiers1": 3}


def final_of(o):
    """years and the numbers of the final report"""
    case, m, B, years, T, txt = o
    f = roll.split_final(txt)
    t = f[-1][1] if f else ""
    return [{k: v.tolist() for k, v in y["tot"].items()} for y in years], roll.rows(t), roll.summary_rows(t, None, case["mc"]["STEP"] == 1), roll.dist_tables(t)


def run(job, out):
    on = dict(job, mc=dict(job["mc"], IJ=1))
    o = roll.run(on, out)
    if o is None:
        return
    case, m, B, years, T, txt = o
    hourly = case["mc"]["STEP"] == 1
    tabs = roll.split_annual(txt)
    out.check([k for k, _ in tabs] == list(range(1, len(years) + 1)), "tables", "tables of replications %s in a run of %d years" % ([k for k, _ in tabs], len(years)))
    for k, text in tabs:
        if k > len(years):
            break
        out.count("tables")
        exp = roll.expected_table(B, hourly, k - 1)
        got = roll.rows(text)
        roll.compare_rows(out, "annual", "table of replication %d" % k, got, exp)
        for (lab, t, tag, v) in exp:
            out.case((job["s"], k, lab, t, tag) if any(v) else None)
    if job["both"]:
        ref = final_of(o)
        o2 = roll.run(dict(job, mc=dict(job["mc"], IJ=0)), out)
        if o2 is None:
            return
        out.count("without")
        out.check(not roll.split_annual(o2[5]), "tables-unasked", "tables per replication although not requested")
        out.check(final_of(o2) == ref, "results-differ", "the tables per replication change the final results")
    out.sample(areas=m.A, tiers=m.nf, years=len(years), rows=len(roll.rows(tabs[0][1])) if tabs else 0)


def jobs(tier, rng):
    q = tier == "quick"
    r = roll.jobs_of(rng, 14 if q else 160, 4 if q else 24)
    for i, j in enumerate(r):
        j["mc"] = dict(MAXE=100000 if j["s"] % 3 else 700, FIN=2 + j["s"] % (3 if j["hourly"] else 8))
        j["both"] = not j["hourly"] or i % 2 == 0
        if i % 7 == 6 and not j["hourly"]:
            j["inject"] = False
    # a long run
    r += [dict(j, A=1, both=False, mc=dict(FIN=104, CVT=1e-9, IJ=1, MAXE=700)) for j in roll.jobs_of(rng, 1 if q else 6, 0)]
    return r
