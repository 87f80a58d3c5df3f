"""the final report states the averages of the simulated years"""
from lib import roll

RULE = ("a case is one row of the final tables of a whole run; every printed number is compared with the average of the yearly values; "
        "non-trivial rows have losses")
REQUIRE = {"rows": 400, "summary": 30, "hourly": 2, "daily": 5, "tiers5": 3, "tiers1": 3, "one_year": 3}


def run(job, out):
    o = roll.run(job, out)
    if o is None:
        return
    case, m, B, years, T, txt = o
    hourly = case["mc"]["STEP"] == 1
    f = roll.split_final(txt)
    if not out.check(len(f) == 1, "reports", "%d final reports" % len(f)):
        return
    n, text = f[0]
    out.count("one_year", int(len(years) == 1))
    out.check(n == len(years), "title", "the final report names %d replications, %d years were simulated" % (n, len(years)))
    body, _, rest = text.partition("SUMMARY OF RESULTS")
    exp = roll.expected_table(B, hourly)
    got = roll.rows(body)
    roll.compare_rows(out, "final", "final table", got, exp, 1)
    for (lab, k, tag, v), (tok, t) in zip(exp, got):
        out.case((job["s"], lab, k, tag) if any(v) else None)
    S = roll.summary_rows(text, None, hourly)
    E = roll.expected_summary(B)
    if not out.check(len(S) == m.A + 1, "summary-rows", "summary has %d rows for %d areas" % (len(S), m.A)):
        return
    for i, ((name, tok), e) in enumerate(zip(S, E)):
        if i < m.A:
            out.check(name == case["areas"][i]["name"], "summary-name", "row %d of the summary is named %r, expected %r" % (i + 1, name, case["areas"][i]["name"]))
        tok = tok[3:]
        x = e if hourly else e[4:]
        out.count("summary")
        for t, v, w in zip(tok, x, ("HLOLE", "PCT SD of HLOLE", "EUE", "PCT SD of EUE", "LOLE", "PCT SD of LOLE")[0 if hourly else 4:]):
            if not roll.Fmt.same(t, v, roll.decimals(t)):
                out.violation("summary-value", "summary of %s, %s: %s printed, %.6g expected" % (name, w, t, v))
                return
    out.sample(areas=m.A, tiers=m.nf, years=B.years, summary=S[-1])


def jobs(tier, rng):
    q = tier == "quick"
    r = roll.jobs_of(rng, 36 if q else 240, 8 if q else 40)
    for i, j in enumerate(r):
        j["mc"] = dict(MAXE=100000 if j["s"] % 3 else 700)
        if j["hourly"]:
            j["mc"]["FIN"] = 1 + i // 2 % 4
            if i % 4 == 1:  # rare losses: yearly averages below one hour
                j.update(style="tail", lfu=True)
                j["mc"]["FIN"] = 2 + i // 4 % 3
        elif i % 6 < 2:
            j["mc"]["FIN"] = 1 + i // 6 % 2
    # long runs
    r += [dict(j, A=1 + i, mc=dict(FIN=110 - 9 * i, CVT=1e-9, MAXE=700)) for i, j in enumerate(roll.jobs_of(rng, 2 if q else 10, 0))]
    return r
