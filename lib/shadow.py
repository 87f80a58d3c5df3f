"""Reference model of the simulation, computed from the input cards alone, and an online
checker that follows the events of a run.

The checker never re-derives random draws (those are observed) nor network solutions
(those are judged by their own oracle); everything else it predicts.  Every divergence
is reported with a tag; the checks select the tags of their property.
"""
import numpy as np

HOURS = 8760
SIG = np.array([2.5, 1.0, 0.0, -1.0, -2.5])
XPROB = np.array([0.0668, 0.2417, 0.383, 0.2417, 0.0668])
EPS = 1e-6


class Model:
    def __init__(self, case):
        self.case = case
        m = case["mc"]
        ar, un, tl = case["areas"], case["units"], case["lines"]
        self.A, self.U, self.L = len(ar), len(un), len(tl)
        self.peak = np.array([a["peak"] for a in ar], float)
        self.lfu = np.array([a["lfu"] for a in ar], float)
        self.limit = np.array([a["flow"] for a in ar], float)
        sh = np.array(case["shapes"], float)
        mx = np.maximum(sh.max(axis=1), 0.001)
        self.load = sh / mx[:, None] * self.peak[:, None]
        self.nf = 5 if self.lfu.any() else 1
        self.fac = 1.0 + (SIG[None, :] * self.lfu[:, None] / 100.0 if self.nf == 5 else np.zeros((self.A, 1)))
        self.base = 2 if self.nf == 5 else 0
        self.loc = np.array([u["loc"] for u in un], int)
        self.cap = np.array([u["cap"] for u in un], float).reshape(self.U, 4)
        self.pfull = np.array([1 - u["dfor"] - u["FOR"] for u in un])
        self.pder = np.array([1 - u["FOR"] for u in un])
        self.der = np.array([1 - u["der"] / 100.0 for u in un])
        self.own = np.zeros((self.A, self.U))
        if self.U:
            self.own[self.loc, np.arange(self.U)] = 1.0
        for o in case["od"]:
            self.own[:, o["u"]] = np.array(o["pct"]) / 100.0
        self.out = np.zeros((self.U, 52), bool)
        self.auto = np.zeros(self.U, bool)
        for i, u in enumerate(un):
            if u["pa"]:
                for b, d in ((u["b1"], u["d1"]), (u["b2"], u["d2"])):
                    if b > 0:
                        self.out[i, b - 1: b - 1 + d] = True
            elif u["d1"] or u["d2"]:
                self.auto[i] = True
        self.trans = np.zeros((365, self.A))
        self.contract = np.zeros((365, self.A))
        for c in case["fc"]:
            self.trans[c["beg"] - 1: c["end"], c["a"]] += c["mw"]
            self.trans[c["beg"] - 1: c["end"], c["b"]] -= c["mw"]
        # hourly loads with contracts, for peaks
        net = self.load + np.repeat(self.trans, 24, axis=0).T
        self.net = net
        d = net.reshape(self.A, 365, 24)
        self.dpeak = d.max(axis=2)
        self.dpeakh = d.argmax(axis=2) + 24 * np.arange(365)
        self.maxday = self.dpeak.argmax(axis=1)
        w = self.dpeak[:, :364].reshape(self.A, 52, 7).max(axis=2)
        w[:, 51] = np.maximum(w[:, 51], self.dpeak[:, 364])
        self.wpeak = w
        pool = net.sum(axis=0).reshape(365, 24)
        self.poolh = pool.argmax(axis=1) + 24 * np.arange(365)
        srt = np.sort(pool, axis=1)
        # days on which rounding could decide which hour is the largest
        self.pool_amb = (srt[:, -1] - srt[:, -2]) < 1e-6
        self.qtr = np.array(m["WK"], float) * 168
        self.season = np.array([int((h >= self.qtr).sum()) for h in range(HOURS)])
        self.step = int(m["STEP"])
        self.freq = int(m["FREQ"])
        self.years = int(m["FIN"])
        # states of the lines
        self.lfrom = np.array([t["a"] for t in tl], int)
        self.lto = np.array([t["b"] for t in tl], int)
        self.adm = np.array([[s[0] or -0.5 for s in t["st"]] for t in tl], float).reshape(self.L, 6)
        self.fwd = np.array([[s[1] or 1 for s in t["st"]] for t in tl], float).reshape(self.L, 6)
        self.bwd = np.array([[s[2] or 1 for s in t["st"]] for t in tl], float).reshape(self.L, 6)
        self.lprob = np.array([[s[3] for s in t["st"]] for t in tl], float).reshape(self.L, 6)
        self.lcum = np.add.accumulate(self.lprob, axis=1)

    def line(self, i, j):
        """number of the line between two areas (the last one entered), -1 if none"""
        r = -1
        for k in range(self.L):
            if (self.lfrom[k], self.lto[k]) in ((i, j), (j, i)):
                r = k
        return r

    def weekmask(self, h):
        """units on predetermined outage in hour h; None where the calendar has no week"""
        w = h // 168
        return self.out[:, w] if w < 52 else np.zeros(self.U, bool)

    def installed(self, i):
        d = self.maxday[i]
        s = self.season[d * 24]
        return float(self.own[i] @ self.cap[:, s] - self.trans[d, i])


class Tally:
    """annual counters as the specification defines them"""

    def __init__(self, A, nf):
        z = np.zeros
        self.a = {k + c + "A": z((A, nf)) for k in ("LOLG", "LOLT", "MGNG", "MGNT") for c in "HP"}
        self.p = {k + c + "P": z(nf) for k in ("LOLG", "LOLT", "MGNG", "MGNT") for c in "HP"}
        self.skip = {"H": 0, "P": 0}
        self.zero = {"H": np.zeros(nf, int), "P": np.zeros(nf, int)}

    def add(self, c, t, M):
        s = int(M.sum())
        g = "T" if s > 0 else "G"
        pg = "T" if s >= 0 else "G"
        if s == 0:
            # the pool is neither short nor in surplus: the attribution is not specified
            self.zero[c][t] += 1
        self.p["LOL" + pg + c + "P"][t] += 1
        neg = M < 0
        self.a["LOL" + g + c + "A"][neg, t] += 1
        self.a["MGN" + g + c + "A"][neg, t] += -M[neg]
        self.p["MGN" + g + c + "P"][t] += -M[neg].sum()


def trunc(x):
    return np.trunc(x).astype(int)


def amb(x):
    """values whose whole part depends on the last bits"""
    return bool((np.abs(x - np.round(x)) < EPS).any())


class Shadow:
    def __init__(self, case, out, tags=None):
        self.m = Model(case)
        self.out = out
        self.tags = tags
        self.clock = 0.0
        self.pending = None  # multiset of events in the calendar
        self.state = None
        self.year_tally = Tally(self.m.A, self.m.nf)
        self.annual = []  # annual counters of the finished years
        self.years = []  # cvchk etc of the finished years
        self.hours = 0
        self.last_clock = 0.0
        self.reports = 0
        self.h_last = -1
        self.year_events = 0
        self.seed_last = {}
        self.unsure = 0
        self.transm_args = []
        self.keep_transm = 0
        self.salt = hash(tuple(u["FOR"] for u in case["units"]))

    # ------------------------------------------------------------------ reporting
    def bad(self, tag, key, msg, **d):
        if self.tags is None or tag in self.tags:
            self.out.violation(key, msg, **d)
        else:
            self.out.count("other_" + tag)

    def see(self, tag, *desc):
        """one judged observation; distinct descriptions are counted"""
        if self.tags is None or tag in self.tags:
            self.out.n += 1
            if len(self.out.nt) < 20000:
                self.out.nt.add("%016x" % (hash((tag, self.salt) + desc) & (2**64 - 1)))

    # ------------------------------------------------------------------ events
    def __call__(self, ev, T):
        o = self.out
        if self.pending is None:
            self.pending = list(T.initial)
            if len(self.pending):
                exp = [(0.5, 3), (0.5, 2), (8760.0, 4), (float(self.m.step), 1)] + [
                    (float(q) + 0.5, 3) for q in self.m.qtr]
                if sorted(exp) != sorted(self.pending):
                    self.bad("calendar", "initial-events", "the calendar starts with %s" % sorted(self.pending))
            else:
                self.pending = [(0.5, 3), (0.5, 2), (8760.0, 4), (float(self.m.step), 1)] + [
                    (float(q) + 0.5, 3) for q in self.m.qtr]
        e = (ev.time, ev.kind)
        o.count("events")
        self.see("calendar", ev.kind, ev.time % HOURS, len(self.pending))
        if e not in self.pending:
            self.bad("calendar", "event-not-filed", "event %s was never filed (pending %s)" % (e, sorted(self.pending)))
        else:
            lo = min(t for t, k in self.pending)
            if ev.time > lo:
                self.bad("calendar", "event-order", "event %s leaves before one at time %g" % (e, lo))
            else:
                same = [k for t, k in self.pending if t == lo]
                # same time: the one filed last goes first
                if len(same) > 1 and ev.kind != [k for t, k in self.pending if t == lo][-1]:
                    self.bad("calendar", "event-tie", "of the events at %g kind %d leaves before the one filed last" % (lo, ev.kind))
            # the last of equals was filed last
            i = len(self.pending) - 1 - self.pending[::-1].index(e)
            self.pending.pop(i)
        if ev.time < self.clock:
            self.bad("calendar", "time-backwards", "time %g after %g" % (ev.time, self.clock))
        self.clock = ev.time
        succ = {1: ev.time + self.m.step, 2: min(ev.time + 168, (ev.time // HOURS + 1) * HOURS + 0.5),
                3: ev.time + HOURS, 4: ev.time + HOURS}.get(ev.kind)
        if ev.filed != [(succ, ev.kind)]:
            self.bad("calendar", "successor", "event %s files %s instead of %s" % (e, ev.filed, [(succ, ev.kind)]))
        self.pending += ev.filed
        if ev.kind == 1:
            self.hour(ev)
        elif ev.kind == 4:
            self.year(ev)
        else:
            for c in ev.calls:
                if c["f"] in ("hrstat", "pkstat", "transm"):
                    self.bad("hours", "stat-outside-hour", "%s during an event of kind %d" % (c["f"], ev.kind))
        for c in ev.calls:
            if c["f"] == "report":
                self.reports += 1

    # ------------------------------------------------------------------ one hour
    def hour(self, ev):
        m, o = self.m, self.out
        k = int(round(ev.time)) - 1  # 0-based absolute hour (the end of the step)
        y, hy = divmod(k, HOURS)
        self.hours += 1
        if k != self.last_clock + m.step - 1:
            self.bad("hours", "hour-sequence", "hour event at %g after %g" % (ev.time, self.last_clock))
        self.last_clock = k + 1
        if y != self.year_events:
            self.bad("hours", "year-close", "hour %d of year %d is evaluated after %d closed years" % (hy, y + 1, self.year_events))
        day = hy // 24
        h = hy
        self.see("hours", hy, y)
        skip_hour = False
        if m.step == 24:
            h = int(m.poolh[day])
            skip_hour = bool(m.pool_amb[day])
        c1 = {f: ev.get(f) for f in ("gstate", "lstate", "sumcap", "findtn", "transm", "hrstat", "pkstat")}
        draw = m.step == 24 or m.freq == 1 or hy % m.freq == 0
        for f in ("gstate", "lstate"):
            n = len(c1[f])
            self.see("cadence", f, n, hy % 24, y)
            if n != (1 if draw else 0):
                self.bad("cadence", "draws-per-hour", "%d draws (%s) in hour %d of the year (step %d, frequency %d)" % (
                    n, f, hy, m.step, m.freq))
        # the calendar position that decides season and week: start of the step
        hb = hy if m.step == 1 else day * 24
        if c1["gstate"]:
            self.gen_draw(c1["gstate"][-1], hb, hy)
        if c1["lstate"]:
            self.line_draw(c1["lstate"][-1], hy)
        if c1["gstate"] and c1["lstate"]:
            g = c1["gstate"][-1]
            pct = np.asarray(g["PCTAVL"], float).ravel()
            inout = m.weekmask(hb)
            if m.auto.any() or hb >= 8736:
                # automatically scheduled units: take what the program decided
                plnd = np.asarray(g["PLNDST"], float).ravel()
            else:
                plnd = np.where(inout, 0.0, 1.0)
            rate = m.cap[:, m.season[hb]]
            av = pct * rate * plnd
            syscon = np.bincount(m.loc, weights=av, minlength=m.A) if m.U else np.zeros(m.A)
            sysown = m.own @ av if m.U else np.zeros(m.A)
            self.state = dict(pct=pct, av=av, syscon=syscon, sysown=sysown, owed=syscon - sysown,
                              ln=np.asarray(c1["lstate"][-1]["LNSTAT"]).ravel().astype(int),
                              trans=m.trans[day], day=day, plnd=plnd)
            self.see("capacity", syscon.tobytes(), sysown.tobytes())
            self.see("contracts", day, m.trans[day].tobytes())
            if c1["sumcap"]:
                s = c1["sumcap"][-1]
                for nm, exp, got in (("located", syscon, s["SYSCON"]), ("owned", sysown, s["SYSOWN"]), ("owed", syscon - sysown, s["TRNSFJ"])):
                    got = np.asarray(got, float).ravel()
                    if got.shape != exp.shape or np.abs(got - exp).max(initial=0) > 1e-6:
                        self.bad("capacity", "capacity-" + nm, "hour %d: %s capacity %s, units give %s" % (hy, nm, got, exp))
                if len(m.case["od"]):
                    o.count("hours_joint")
            if c1["findtn"]:
                t = c1["findtn"][-1]
                if np.abs(np.asarray(t["TRNSFR"]) - m.trans[day]).max(initial=0) > 1e-9:
                    self.bad("contracts", "contract-day", "day %d: net deliveries %s, contracts give %s" % (
                        day + 1, t["TRNSFR"], m.trans[day]))
                if m.trans[day].any():
                    o.count("hours_contract")
        if self.state is None:
            return
        self.outcome(ev, c1, h, hy, day, skip_hour)

    def gen_draw(self, g, hb, hy):
        m, o = self.m, self.out
        o.count("gen_draws")
        rate = np.asarray(g["RATING"], float).ravel()
        exp = m.cap[:, m.season[hb]]
        self.see("season", m.season[hb], hb // 168, self.year_events)
        if np.abs(rate - exp).max(initial=0) > 1e-9:
            i = int(np.abs(rate - exp).argmax())
            self.bad("season", "season-rating", "hour %d: unit %d rated %g, season %d gives %g" % (
                hb, i, rate[i], m.season[hb] + 1, exp[i]))
        pl = np.asarray(g["PLNDST"], float).ravel()
        if hb < 8736:
            exp = np.where(m.weekmask(hb), 0.0, 1.0)
            bad = (pl != exp) & ~m.auto
            self.see("outage", hb // 168, self.year_events, exp.tobytes())
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                self.bad("outage", "outage-week", "week %d: unit %d planned outage status %g, schedule gives %g" % (
                    hb // 168 + 1, i, pl[i], exp[i]))
            if (exp == 0).any():
                o.count("outage_draws")
        pct = np.asarray(g["PCTAVL"], float).ravel()
        av = np.asarray(g["AVAIL"], float).ravel()
        if np.abs(av - pct * rate * pl).max(initial=0) > 1e-9:
            self.bad("genstate", "available", "hour %d: available capacity is not state times rating in service" % hy)
        u = self.uniform(g, "g")
        if u is not None and m.U:
            u = u[: m.U]
            near = (np.abs(u - m.pfull) < 1e-9) | (np.abs(u - m.pder) < 1e-9)
            self.see("genstate", pct.tobytes())
            exp = np.where(u < m.pfull, 1.0, np.where(u < m.pder, m.der, 0.0))
            bad = (np.abs(pct - exp) > 1e-9) & ~near
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                self.bad("genstate", "gen-state", "hour %d: unit %d delivers %g of its rating; its random number %.6f and rates give %g" % (
                    hy, i, pct[i], u[i], exp[i]))

    def line_draw(self, c, hy):
        m, o = self.m, self.out
        o.count("line_draws")
        st = np.asarray(c["LNSTAT"]).ravel().astype(int)
        if st.shape != (m.L,) or (m.L and (st.min() < 1 or st.max() > 6)):
            self.bad("linestate", "line-state-range", "hour %d: line states %s" % (hy, st))
            return
        u = self.uniform(c, "l")
        if u is not None and m.L:
            u = u[: m.L]
            self.see("linestate", st.tobytes())
            near = (np.abs(u[:, None] - m.lcum) < 1e-9).any(axis=1)
            exp = 1 + (u[:, None] > m.lcum[:, :5]).sum(axis=1)
            bad = (st != exp) & ~near
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                self.bad("linestate", "line-state", "hour %d: line %d in state %d; its random number %.6f gives %d" % (
                    hy, i, st[i], u[i], exp[i]))

    def uniform(self, c, kind):
        """the random numbers of this draw, from the random states after it"""
        s, s0 = np.asarray(c["SEED"]), np.asarray(c["SEED0"])
        if s.dtype.kind not in "iu" or s.shape != s0.shape:
            return None
        n = self.m.U if kind == "g" else self.m.L
        prev = self.seed_last.get(kind)
        if prev is not None and not np.array_equal(prev[:n], s0[:n]):
            self.bad("cadence", "stream-gap", "random states changed between two draws")
        if n and (s[:n] == s0[:n]).any():
            self.bad("cadence", "stream-stuck", "a random state did not advance with the draw")
        self.seed_last[kind] = s.copy()
        return s.astype(float) * 0.4656613e-9

    def outcome(self, ev, c1, h, hy, day, skip):
        m, o, s = self.m, self.out, self.state
        obs = [c for c in ev.calls if c["f"] in ("transm", "hrstat", "pkstat")]
        # one loss is recorded by two calls, in whatever order
        for i in range(len(obs) - 1):
            a, b = obs[i], obs[i + 1]
            if a["f"] == "pkstat" and b["f"] == "hrstat" and a["NST"] == b["NST"] and not (
                    i and obs[i - 1]["f"] == "hrstat" and obs[i - 1]["NST"] == a["NST"]):
                obs[i], obs[i + 1] = b, a
        pos = 0
        if skip:
            o.count("hours_ambiguous_peak")
            self.follow(obs, True)
            return

        def nxt(name):
            return obs[pos] if pos < len(obs) and obs[pos]["f"] == name else None

        atpeak = h == int(m.poolh[day])
        ambpeak = bool(m.pool_amb[day])
        unsure = False
        first = True
        for t in range(m.nf):
            load = m.load[:, h] * m.fac[:, t]
            mg = s["syscon"] - load
            M = trunc(mg)
            unsure = unsure or amb(mg)
            short = M < 0
            ns = int(short.sum())
            where = "hour %d of year %d (tier %d, margins %s)" % (h, self.year_events + 1, t + 1, M.tolist())
            if unsure:
                o.count("hours_ambiguous")
                self.follow(obs[pos:], atpeak)
                return
            self.see("decision", t, M.tobytes())
            self.see("hold", hy % 24, s["av"].tobytes())
            if ns == 0:
                o.count("tier_ok")
                break
            o.count("tier_deficit")
            final = M
            if ns < m.A:
                covered = False
                if ns == 1:
                    o.count("tier_single")
                    self.see("assist", t, M.tobytes(), s["ln"].tobytes())
                    it = int(np.nonzero(short)[0][0])
                    need = -int(M[it])
                    give = 0
                    for j in range(m.A):
                        if M[j] > 0:
                            n = m.line(j, it)
                            if n >= 0:
                                st = s["ln"][n] - 1
                                c = m.fwd[n, st] if m.lfrom[n] == j else m.bwd[n, st]
                                give += min(int(M[j]), int(c))
                    covered = give >= need
                    c = nxt("transm")
                    if covered:
                        o.count("tier_helped")
                        if c is not None or nxt("hrstat") is not None:
                            self.bad("assist", "direct-help-ignored", "%s: neighbours can give %d MW, but the hour goes on" % (where, give),
                                     need=need, give=give)
                            self.follow(obs[pos:], atpeak)
                            return
                        break
                    if c is None:
                        self.bad("assist", "direct-help-invented", "%s: neighbours can give only %d MW, but no network solution follows" % (where, give),
                                 need=need, give=give)
                        self.follow(obs[pos:], atpeak)
                        return
                c = nxt("transm")
                if c is None:
                    self.bad("decision", "no-network-solution", "%s: no network solution" % where)
                    self.follow(obs[pos:], atpeak)
                    return
                pos += 1
                o.count("transm")
                self.network_args(c, load, where, first, h)
                first = False
                if self.keep_transm > len(self.transm_args):
                    self.transm_args.append(c)
                sadj = np.asarray(c["SADJ"], float).ravel()
                if int(c["JFLAG"]) == 0:
                    o.count("network_no_loss")
                    break
                if amb(sadj[np.abs(sadj) > EPS]):
                    # whole megawatts lost or kept by rounding: take what is recorded
                    final = None
                else:
                    final = trunc(-sadj)
                    if not (final < 0).any():
                        o.count("network_no_loss")
                        break
            else:
                o.count("tier_all_short")
            c = nxt("hrstat")
            if final is None:
                if c is None:
                    if obs[pos:]:
                        self.follow(obs[pos:], atpeak)
                        return
                    break
                final = np.asarray(c["MARGIN"]).ravel().astype(int)
                if np.abs(final + sadj).max() > 1 + EPS:
                    self.bad("decision", "recorded-margin", "%s: margins %s recorded, network gives %s" % (where, final, -sadj))
            if c is None:
                self.bad("decision", "loss-not-recorded", "%s: remaining margins %s, nothing recorded" % (where, final))
                self.follow(obs[pos:], atpeak)
                return
            pos += 1
            got = np.asarray(c["MARGIN"]).ravel()
            if got.shape != final.shape or (got != final).any():
                self.bad("decision", "recorded-margin", "%s: margins %s recorded, %s remain" % (where, got, final))
            if c["NST"] != t:
                self.bad("decision", "recorded-tier", "%s: recorded for tier %d" % (where, c["NST"] + 1))
            o.count("loss")
            self.see("hrstat", t, got.tobytes())
            if atpeak:
                self.see("pkstat", t, got.tobytes())
            self.see("peakhour", h, self.year_events)
            self.year_tally.add("H", t, got.astype(int))
            p = nxt("pkstat")
            if ambpeak:
                if p is not None:
                    pos += 1
                    self.year_tally.add("P", t, got.astype(int))
                continue
            if atpeak:
                o.count("peak_loss")
                if p is None:
                    self.bad("peakhour", "peak-loss-missed", "%s: the pool peaks in this hour, no peak loss recorded" % where)
                else:
                    pos += 1
                    if p["NST"] != t or (np.asarray(p["MARGIN"]).ravel() != got).any():
                        self.bad("peakhour", "peak-loss-differs", "%s: peak loss %s of tier %d" % (where, p["MARGIN"], p["NST"] + 1))
                    self.year_tally.add("P", t, np.asarray(p["MARGIN"]).ravel().astype(int))
            elif p is not None:
                self.bad("peakhour", "peak-loss-extra", "%s: peak loss recorded, the pool peaks in hour %d" % (where, m.poolh[day]))
                pos += 1
                self.year_tally.add("P", t, np.asarray(p["MARGIN"]).ravel().astype(int))
        if pos < len(obs):
            self.bad("decision", "extra-" + obs[pos]["f"], "hour %d: %s although nothing (more) is short" % (h, obs[pos]["f"]),
                     extra=[c["f"] for c in obs[pos:]])
            self.follow(obs[pos:], atpeak)

    def follow(self, obs, atpeak):
        """keep the tally in step with what is recorded, without judging"""
        self.unsure += 1
        for c in obs:
            if c["f"] == "hrstat":
                self.year_tally.add("H", c["NST"], np.asarray(c["MARGIN"]).ravel().astype(int))
            elif c["f"] == "pkstat":
                self.year_tally.add("P", c["NST"], np.asarray(c["MARGIN"]).ravel().astype(int))

    def network_args(self, c, load, where, first, h):
        m, s = self.m, self.state
        self.see("load", h, load.tobytes())
        d = lambda a, b: np.abs(np.asarray(a, float).ravel() - b).max(initial=0)  # noqa: E731
        if np.asarray(c["CAPREQ"]).size != m.A or d(c["CAPREQ"], load) > 1e-6:
            self.bad("load", "hour-load", "%s: network solved for loads %s, input gives %s" % (where, c["CAPREQ"], load))
        if d(c["SYSCON"], s["syscon"]) > 1e-6:
            self.bad("hold" if m.freq == 24 else "capacity", "hour-capacity", "%s: network solved for capacities %s, units give %s" % (where, c["SYSCON"], s["syscon"]))
        if d(c["TRNSFJ"], s["owed"]) > 1e-6:
            self.bad("capacity", "hour-owed", "%s: owed capacity %s, shares give %s" % (where, c["TRNSFJ"], s["owed"]))
        if s["trans"].any():
            self.out.count("networks_contract")
        if len(m.case["od"]):
            self.out.count("networks_joint")
        if d(c["TRNSFR"], s["trans"]) > 1e-9:
            self.bad("contracts", "hour-contract", "%s: contracted deliveries %s, contracts give %s" % (where, c["TRNSFR"], s["trans"]))
        if d(c["LNSTAT"], s["ln"]) > 0:
            self.bad("hold" if m.freq == 24 else "linestate", "hour-lines", "%s: line states %s, drawn %s" % (where, c["LNSTAT"], s["ln"]))
        if d(c["PCTAVL"], s["pct"]) > 0:
            self.bad("hold", "hour-units", "%s: unit states %s, drawn %s" % (where, c["PCTAVL"], s["pct"]))
        if d(c["STMULT"], 1.0) > 0:
            self.bad("linestate", "line-multiplier", "%s: line capacities are multiplied by %s" % (where, c["STMULT"]))
        if c["JHOUR"] != h:
            self.bad("hours", "hour-number", "%s: network solution labelled hour %d" % (where, c["JHOUR"]))
        if int(c["NLS"]) != int(m.case["mc"]["LS"]):
            self.bad("policy", "policy", "%s: sharing policy %s" % (where, c["NLS"]))

    # ------------------------------------------------------------------ one year
    def year(self, ev):
        m, o = self.m, self.out
        self.year_events += 1
        o.count("years")
        if ev.time != self.year_events * HOURS:
            self.bad("hours", "year-time", "year %d is closed at %g" % (self.year_events, ev.time))
        if self.last_clock != self.year_events * HOURS:
            # filed first at the same time or handled after: hours of this year must be complete
            self.bad("hours", "year-incomplete", "year %d is closed after hour %g" % (self.year_events, self.last_clock))
        ys = ev.get("year")
        if not ys:
            return
        y = ys[-1]
        t = self.year_tally
        for c in "HP":
            tag = "hrstat" if c == "H" else "pkstat"
            for g in "GT":
                for q in ("LOL", "MGN"):
                    k = q + g + c
                    for lev, ref in (("A", t.a), ("P", t.p)):
                        got = np.asarray(y["annual"][k + lev], float)
                        got = got[..., : m.nf]
                        exp = ref[k + lev]
                        dd = np.abs(got - exp)
                        bad = dd > 0
                        if t.zero[c].any():
                            # losses of a pool that is exactly balanced: cause not specified
                            bad &= ~(t.zero[c] > 0)[(None, slice(None)) if lev == "A" else slice(None)]
                        if bad.any():
                            self.bad(tag, "annual-" + tag, "year %d: counter of %s %s by %s is %s, recorded losses give %s" % (
                                self.year_events, {"LOL": "losses", "MGN": "energy"}[q], {"G": "generation", "T": "transmission"}[g],
                                "area" if lev == "A" else "pool", got.tolist(), exp.tolist()))
            # whatever the attribution, nothing is lost
            for q in ("LOL", "MGN"):
                for lev, ref in (("A", t.a), ("P", t.p)):
                    got = sum(np.asarray(y["annual"][q + g + c + lev], float)[..., : m.nf] for g in "GT")
                    exp = sum(ref[q + g + c + lev] for g in "GT")
                    if np.abs(got - exp).max(initial=0) > 0:
                        self.bad(tag, "annual-conservation-" + tag, "year %d: %s totals %s, recorded losses give %s" % (
                            self.year_events, q, got.tolist(), exp.tolist()))
        self.annual.append(t)
        self.years.append(y)
        self.year_tally = Tally(m.A, m.nf)
        cv = ev.get("cvchk")
        y["cvchk"] = cv[-1] if cv else None
        y["reported"] = bool(ev.get("report"))
        y["snapshot"] = bool(ev.get("intm"))
