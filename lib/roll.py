"""Years rolled up into totals, distributions, the stopping rule and the printed tables.

Whole runs are executed; just before a year is closed its annual counters are replaced
by random ones (as if such losses had occurred), because real losses reach only few of
the possible counter values.  What the program makes of them is compared with an
independent bookkeeping of the years.
"""
import os
import re

import numpy as np

from lib import e2e, gen, jobs as J
from lib.common import Stop
from lib.shadow import XPROB, Model

KEYS = [q + g + c + lev for q in ("LOL", "MGN") for g in "GT" for c in "HP" for lev in "AP"]
NUM = r"-?(?:\d+\.?\d*|nan|inf)"


def case_of(job):
    """a small quick system; the losses are made up, so its own do not matter"""
    rng = np.random.default_rng(job["s"])
    A = int(job.get("A", rng.integers(1, 5) if rng.random() < 0.85 else rng.integers(8, 13)))
    hourly = bool(job.get("hourly", False))
    mc = dict(FIN=int(rng.integers(3, 13)), STEP=1 if hourly else 24, FREQ=24 if hourly else int(rng.choice([1, 24])),
              WHERE=int(rng.integers(1, 3)), WHEN=int(rng.integers(1, 3)), KVS=int(rng.integers(1, 3)), KVT=int(rng.integers(1, 3)),
              KVL=int(rng.integers(1, A + 1)), CVT=float(rng.choice([1e-9, 0.05, 0.1, 0.2, 0.3, 0.5])),
              MAXE=int(rng.choice([0, 5, 19, 20, 39, 100, 777, 5000, 100000])), IJ=int(job.get("IJ", rng.integers(2))),
              IN=int(rng.integers(1, 7)))
    mc.update(job.get("mc", {}))
    case = gen.random_case(rng, n_area=A, units_per_area=2 if hourly else 3, stress=0.35, mc=mc, contracts=False, owners=False, maint="none",
                           lfu=job.get("lfu"))
    return case, rng


def losses(rng, A, nf, maxe, style):
    """random annual counters: dict like the program's"""
    d = {}
    hi = {"H": (3, 25, 60, 900), "P": (2, 22, 40, 300)}
    for c in "HP":
        for g in "GT":
            for lev, shape in (("A", (A, nf)), ("P", (nf,))):
                top = hi[c][int(rng.integers(4))]
                if style == "calm":
                    L = rng.poisson(4 if lev == "A" else 6, shape)
                elif style in ("steady", "vast"):
                    L = np.rint(300 * (1 + rng.uniform(0.03, 0.2) * rng.standard_normal(shape))).astype(int).clip(1)
                elif style == "rare":
                    L = (rng.random(shape) < 0.15).astype(int)
                elif style == "tail":  # hardly ever, and then in a tier of little weight
                    L = np.zeros(shape, int)
                    if nf == 5:
                        for x in L.reshape(-1, nf):
                            if rng.random() < 0.15:
                                x[int(rng.choice([0, 4, 4]))] = 1
                elif style == "fixed":
                    L = np.full(shape, 3 if g == "G" else 0)
                elif style == "none":
                    L = np.zeros(shape, int)
                else:
                    L = np.where(rng.random(shape) < 0.3, 0, rng.integers(0, top + 1, shape))
                mg = rng.integers(1, max(2, int(maxe * rng.choice([0.1, 0.7, 2]))) + 1, shape) if style != "fixed" else np.full(shape, 250)
                if style in ("calm", "steady"):
                    mg = L * 20 + rng.integers(0, 20, shape)
                elif style == "vast":  # losses of a large system
                    mg = L * 2000 + rng.integers(0, 2000, shape)
                elif style == "wild" and rng.random() < 0.4:
                    mg = (L * rng.uniform(1, 300, shape)).astype(int)
                k = rng.random()
                if k < 0.2 and style == "wild":
                    step = max(maxe // 20, 1)
                    mg = rng.integers(1, 25, shape) * step  # exactly on a limit
                M = np.where(L > 0, np.maximum(mg, 1), 0)
                d["LOL" + g + c + lev] = L.astype(int)
                d["MGN" + g + c + lev] = M.astype(int)
    return d


class Books:
    """independent multi-year bookkeeping"""

    def __init__(self, A, nf, base, maxe):
        self.A, self.nf, self.base = A, nf, base
        self.w = XPROB if nf == 5 else np.ones(1)
        self.step = max(int(maxe // 20), 1)
        self.t = {}
        for q in ("SOL", "SGN"):
            for g in "GTS":
                for c in "HP":
                    self.t[q + g + c + "A"] = np.zeros((A, nf))
                    self.t[q + g + c + "P"] = np.zeros(nf)
                    q2 = {"SOL": "SWL", "SGN": "SWN"}[q]
                    self.t[q2 + g + c + "A"] = np.zeros(A)
                    self.t[q2 + g + c + "P"] = np.zeros(1)
        self.h = {k: np.zeros((A, 22)) for k in ("HLOLE", "DPLOLE", "EUES")}
        self.xa, self.xp = np.zeros((A, 3)), np.zeros(3)
        self.series = []
        self.years = 0
        self.table = []

    def add(self, d):
        self.years += 1
        d = {k: np.asarray(v, float)[..., : self.nf] for k, v in d.items()}
        for q in ("LOL", "MGN"):
            for c in "HP":
                for lev in "AP":
                    d[q + "S" + c + lev] = d[q + "G" + c + lev] + d[q + "T" + c + lev]
        w = {}
        for q, s, sw in (("LOL", "SOL", "SWL"), ("MGN", "SGN", "SWN")):
            for g in "GTS":
                for c in "HP":
                    for lev in "AP":
                        x = d[q + g + c + lev]
                        self.t[s + g + c + lev] = self.t[s + g + c + lev] + x
                        y = (x * self.w).sum(axis=-1)
                        w[q + g + c + lev] = np.atleast_1d(y)
                        self.t[sw + g + c + lev] = self.t[sw + g + c + lev] + np.atleast_1d(y)
        for i in range(self.A):
            self.h["HLOLE"][i, min(21, int(d["LOLSHA"][i, self.base]))] += 1
            self.h["DPLOLE"][i, min(21, int(d["LOLSPA"][i, self.base]))] += 1
            self.h["EUES"][i, min(21, int(d["MGNSHA"][i, self.base] // self.step))] += 1
        self.xa += np.column_stack([w["LOLSHA"], w["MGNSHA"], w["LOLSPA"]]) ** 2
        self.xp += np.array([w["LOLSHP"][0], w["MGNSHP"][0], w["LOLSPP"][0]]) ** 2
        self.table.append((d, w))

    def chosen(self, mc):
        """yearly values of the statistic that decides about the end"""
        q = "LOL" if mc["KVS"] == 1 else "MGN"
        c = "H" if mc["WHEN"] == 1 else "P"
        lev = "A" if mc["WHERE"] == 1 else "P"
        r = []
        for d, w in self.table:
            x = w[q + "S" + c + lev] if mc["KVT"] == 1 else d[q + "S" + c + lev][..., self.base]
            r.append(float(x[mc["KVL"] - 1]) if lev == "A" else float(np.ravel(x)[0]))
        return r

    def stop(self, mc):
        """(year after which the run ends, certain?) as far as known"""
        x = self.chosen(mc)
        f = mc["CVT"] or 0.025
        for n in range(1, len(x) + 1):
            if n >= mc["FIN"]:
                return n, True
            if n < 5:
                continue
            v = np.array(x[:n])
            mean = v.mean()
            if mean == 0:
                continue
            se = np.sqrt(max((v ** 2).mean() - mean ** 2, 0) / n)
            if abs(se - f * mean) < 1e-9 * mean and se > 0:
                return n, False
            if se < f * mean:
                return n, True
        return None, True


def run(job, out, style=None):
    """one run with made up losses: (case, books, years as observed, trace, output text)"""
    case, rng = case_of(job)
    m = Model(case)
    maxe = case["mc"]["MAXE"]
    B = Books(m.A, m.nf, m.base, maxe)
    style = style or job.get("style", "wild")
    years = []

    def inject(d, T):
        st = style if style != "mix" else str(rng.choice(["wild", "calm", "rare", "none"]))
        x = losses(rng, m.A, m.nf, maxe, st)
        if job.get("inject", True):
            for k, v in x.items():
                d[k][..., : m.nf] = v

    snaps = []

    def on_event(ev, T):
        for c in ev.calls:
            if c["f"] == "year":
                y = dict(c)
                y["reported"] = bool(ev.get("report"))
                y["snapshot"] = bool(ev.get("intm"))
                years.append(y)
                B.add(y["annual"])

    try:
        T = e2e.simulate(case, on_event=on_event, draws=False, inject=inject, bound=J.bound_of(case))
    except Stop:
        out.violation("endless", "the run does not end")
        return None
    out.count("runs")
    out.count("years", len(years))
    out.count("tiers5" if m.nf == 5 else "tiers1")
    out.count("hourly" if case["mc"]["STEP"] == 1 else "daily")
    txt = open("output.txt").read() if os.path.exists("output.txt") else ""
    os.path.exists("output.txt") and os.remove("output.txt")
    return case, m, B, years, T, txt


def cmp(out, key, what, got, exp, tol=1e-9):
    got, exp = np.asarray(got, float).ravel(), np.asarray(exp, float).ravel()
    ok = got.shape == exp.shape and (got.size == 0 or bool((np.abs(got - exp) <= tol * np.maximum(1, np.abs(exp))).all()))
    return out.check(ok, key, "%s: %s, expected %s" % (what, got[:12].tolist(), exp[:12].tolist()))


def ratio(a, b):
    return a / b if b > 0 else 0.0


# ------------------------------------------------------------------ printed tables
def num(s):
    return float(s)


class Fmt:
    """values printed with a number of decimals"""

    @staticmethod
    def same(tok, val, dec):
        try:
            x = float(tok)
        except ValueError:
            return False
        return bool(abs(x - val) <= 0.5 * 10.0 ** -dec + 1e-9 * max(1.0, abs(val)))


def decimals(tok):
    return len(tok.split(".")[1]) if "." in tok else 0


def rows(text):
    """table rows with their reason tag, in order"""
    return [(m.group(1).split(), m.group(2)) for m in re.finditer(r"((?:(?:AV|" + NUM + r")[ \t]+)+)(GC|TC|GT)\b", text)]


def compare_rows(out, key, what, got, exp, off=None):
    """printed rows against expected ones, in order; values within printed precision"""
    if not out.check(len(got) == len(exp), key + "-rows", "%s has %d rows, expected %d" % (what, len(got), len(exp))):
        return
    if off is None:  # tables count areas and tiers from zero or from one
        off = int(got[0][0][0]) if re.fullmatch("[01]", got[0][0][0]) else 1
    for (tok, tag), (lab, n, etag, v) in zip(got, exp):
        head, body = tok[: len(lab) + 1], tok[len(lab) + 1:]
        name = "%s row %s" % (what, " ".join(head + [tag]))
        if not out.check(tag == etag, key + "-order", "%s: expected cause %s of area %s tier %s" % (name, etag, lab, n)):
            return
        if lab and not out.check(head[0] == str(lab[0] + off), key + "-label", "%s: expected area %d" % (name, lab[0] + off)):
            return
        if not out.check(head[-1] == ("AV" if n is None else str(n + off)), key + "-label", "%s: expected tier %s" % (name, n)):
            return
        if not out.check(len(body) == len(v), key + "-columns", "%s has %d values, expected %d" % (name, len(body), len(v))):
            return
        for t, x in zip(body, v):
            if not Fmt.same(t, x, decimals(t)):
                out.violation(key + "-value", "%s: %s printed, %.6g expected (row %s, expected %s)" % (name, t, x, tok, [round(z, 4) for z in v]))
                return
        out.count("rows")


def split_final(txt):
    """[(years named in its title, text)] of the final reports in an output file"""
    p = [m for m in re.finditer(r"FINAL\s+RESULTS\s+AFTER\s+(\d+)\s+REPLICATIONS", txt)]
    return [(int(m.group(1)), txt[m.end(): p[i + 1].start() if i + 1 < len(p) else len(txt)]) for i, m in enumerate(p)]


def split_annual(txt):
    """[(replication, text)] of the tables per replication (before the final report)"""
    cut = re.search(r"FINAL\s+RESULTS", txt)
    txt = txt[: cut.start()] if cut else txt
    p = [m for m in re.finditer(r"(?<!FINAL )RESULTS\s+AFTER\s+(\d+)\s+REPLICATIONS", txt)]
    return [(int(m.group(1)), txt[m.end(): p[i + 1].start() if i + 1 < len(p) else len(txt)]) for i, m in enumerate(p)]


def summary_rows(text, names, hourly):
    """{area name or POOL: [numbers]} of the summary of results"""
    i = text.find("SUMMARY OF RESULTS")
    j = text.find("PROBABILITY DISTRIBUTIONS")
    blk = text[i: j if j > 0 else len(text)]
    n = 9 if hourly else 5
    r = []
    for line in blk.splitlines():
        t = line.split()
        if len(t) >= n + 1 and all(re.fullmatch(NUM, x) for x in t[-n:]):
            r.append((" ".join(t[:-n]), t[-n:]))
    return r


def dist_tables(text):
    """[(area number, rows of 8 tokens)]"""
    p = [m for m in re.finditer(r"PROBABILITY DISTRIBUTIONS FOR AREA\s+(\d+)", text)]
    r = []
    for i, m in enumerate(p):
        blk = text[m.end(): p[i + 1].start() if i + 1 < len(p) else len(text)]
        rows = [l.split() for l in blk.splitlines()]
        r.append((int(m.group(1)), [t for t in rows if len(t) == 8 and all(re.fullmatch(NUM, x) for x in t)]))
    return r


def values_of(B, what, year=None):
    """val(q, g, c, lev, area, tier) for expected_rows: multi-year totals, or one year's counters"""

    def val(q, g, c, lev, i, n):
        if year is None:
            s = {"LOL": "SOL", "MGN": "SGN"}[q] if n is not None else {"LOL": "SWL", "MGN": "SWN"}[q]
            x = B.t[s + g + c + lev]
        else:
            d, w = B.table[year]
            x = (d if n is not None else w)[q + g + c + lev]
        if lev == "A":
            return float(x[i, n] if n is not None else x[i])
        return float(x[n] if n is not None else x[0])

    return val


def expected_table(B, hourly, year=None):
    """rows of the final table (year None) or of the table of one replication"""
    n = 1 if year is not None else B.years
    val = values_of(B, None, year)
    tiers = list(range(B.nf)) + [None]
    if year is None and B.nf == 1:
        tiers = [None]
    r = []

    def row(lev, i, k, g):
        h, hm = val("LOL", g, "H", lev, i, k), val("MGN", g, "H", lev, i, k)
        p, pm = val("LOL", g, "P", lev, i, k), val("MGN", g, "P", lev, i, k)
        v = [h / n, ratio(hm, h), hm / n, p / n, ratio(pm, p)] if hourly else [p / n, ratio(pm, p)]
        r.append(((i,) if lev == "A" else (), k, {"G": "GC", "T": "TC", "S": "GT"}[g], v))

    for i in range(B.A):
        for k in tiers:
            for g in "GTS":
                row("A", i, k, g)
    for k in tiers:
        for g in "GTS":
            row("P", None, k, g)
    return r


def expected_summary(B):
    """per area and for the pool: HLOLE, its PCT SD, EUE, its PCT SD, LOLE, its PCT SD"""
    n = B.years
    r = []
    for i in range(B.A + 1):
        if i < B.A:
            s = [B.t["SWLSHA"][i], B.t["SWNSHA"][i], B.t["SWLSPA"][i]]
            q = B.xa[i]
        else:
            s = [B.t["SWLSHP"][0], B.t["SWNSHP"][0], B.t["SWLSPP"][0]]
            q = B.xp
        v = []
        for a, b in zip(s, q):
            mean = a / n
            sd = np.sqrt(max(b / n - mean ** 2, 0) / n)
            v += [mean, sd / mean * 100 if mean > 0 else 0.0]
        r.append(v)
    return r


def jobs_of(rng, n, nh, **kw):
    """n daily-mode and nh hourly-mode jobs"""
    r = []
    for i, s in enumerate(J.seeds(rng, n + nh)):
        style = ["wild", "calm", "mix", "wild", "rare", "wild", "mix", "fixed", "tail"][i % 9]
        r.append(dict(s=s, hourly=i < nh, style=style, lfu=[True, False][i % 2], **kw))
    return r
