"""Runs the whole program on a generated case under observation.

`simulate` returns a Trace: the list of events in the order they were taken from the
calendar; each event carries the calls made while it was handled.  With `on_event` the
events are handed over one by one instead (nothing is kept).
"""
import os

import numpy as np

from lib import gen, rec
from lib.common import HookMissing, Stop

RET = ("QTR NORR NFCST NOAREA PKLOAD FU MINRAN MAXRAN INHBT1 INHBT2 BN SUSTAT FCTERR CAPCON CAPOWN "
       "NOGEN PROBG DERATE JENT INTCH INTCHR LP LINENO PROBL BLPA MXCRIT JCRIT RATES ID HRLOAD MAXHR "
       "DYLOAD MAXDAY WPEAK MXPLHR JPLOUT ITAB NLS IOI IOJ KVLOC KVSTAT KVTYPE KVWHEN KWHERE CVTEST "
       "MAXEUE JSTEP JFREQ FINISH INTV INTVT NR NAMA").split()

ANNUAL_A = [a + b + c + "A" for a in ("LOL", "MGN") for b in "GT" for c in "HP"]
ANNUAL_P = [a + b + c + "P" for a in ("LOL", "MGN") for b in "GT" for c in "HP"]
TOT_A = [a + b + c + "A" for a in ("SOL", "SGN") for b in "GTS" for c in "HP"]
TOT_P = [a + b + c + "P" for a in ("SOL", "SGN") for b in "GTS" for c in "HP"]
WTOT_A = [a + b + c + "A" for a in ("SWL", "SWN") for b in "GTS" for c in "HP"]
WTOT_P = [a + b + c + "P" for a in ("SWL", "SWN") for b in "GTS" for c in "HP"]
HIST = ["HLOLE", "DPLOLE", "EUES"]
TOTALS = TOT_A + TOT_P + WTOT_A + WTOT_P + HIST + ["XNEWA", "XNEWP"]


class Ev:
    __slots__ = ("time", "kind", "calls", "filed", "index")

    def __init__(self, time, kind, index):
        self.time, self.kind, self.index = time, kind, index
        self.calls, self.filed = [], []

    def get(self, name):
        return [c for c in self.calls if c["f"] == name]


class Trace:
    def __init__(self):
        self.events = []
        self.initial = []  # events filed before the first removal
        self.data = None  # result of the data preparation
        self.reports = []
        self.n = 0
        self.dir = None


def cp(x):
    return x.copy() if isinstance(x, np.ndarray) else x


def simulate(case, path=None, on_event=None, tm2=False, draws=True, annual=True, bound=None, errstate=None,
             inject=None, extra=None):
    """run the program; exceptions of the program pass through"""
    rec.load_all()
    path = path or os.path.join(os.getcwd(), "case")
    if case is not None:
        gen.write_case(case, path)
    T = Trace()
    T.dir = path
    cur = [None]
    maxev = bound

    def flush():
        if cur[0] is not None:
            if on_event is not None:
                on_event(cur[0], T)
            else:
                T.events.append(cur[0])
            cur[0] = None

    def a_remove(d, r):
        flush()
        T.n += 1
        if maxev is not None and T.n > maxev:
            raise Stop("event bound")
        cur[0] = Ev(float(d["ATRIB"][0]), int(d["ATRIB"][1]), T.n)

    def b_filem(d):
        t = (float(d["ATRIB"][0]), int(d["ATRIB"][1]))
        (cur[0].filed if cur[0] is not None else T.initial).append(t)

    def log(**k):
        if cur[0] is not None:
            cur[0].calls.append(k)

    rec.hook("remove", after=a_remove)
    rec.hook("filem", before=b_filem)
    if draws:
        rec.hook("gstate", lambda d: log(f="gstate", RATING=cp(d["RATING"]), PLNDST=cp(d["PLNDST"]), SEED0=cp(d["IGSEED"]), SEED=d["IGSEED"]),
                 lambda d, r: cur[0].calls[-1].update(PCTAVL=cp(r[0]), AVAIL=cp(r[1]), SEED=cp(d["IGSEED"])))
        rec.hook("lstate", lambda d: log(f="lstate", SEED0=cp(d["ILSEED"])),
                 lambda d, r: cur[0].calls[-1].update(LNSTAT=cp(r), SEED=cp(d["ILSEED"])))
        rec.hook("sumcap", None, lambda d, r: log(f="sumcap", SYSOWN=cp(r[1]), SYSCON=cp(r[2]), TRNSFJ=cp(r[3])))
        rec.hook("findtn", None, lambda d, r: log(f="findtn", JDAY=int(d["JDAY"]), TRNSFR=cp(r)))

    def b_transm(d):
        log(f="transm", IFLAG=d["IFLAG"], JHOUR=int(d["JHOUR"]), CLOCK=d["CLOCK"], NLS=d["NLS"],
            BN=cp(d["BN"]), STMULT=cp(d["STMULT"]), LNSTAT=cp(d["LNSTAT"]), TRNSFR=cp(d["TRNSFR"]),
            TRNSFJ=cp(d["TRNSFJ"]), SYSCON=cp(d["SYSCON"]), CAPREQ=cp(d["CAPREQ"]),
            PLNDST=cp(d["PLNDST"]), PCTAVL=cp(d["PCTAVL"]), tm2=[])

    def a_transm(d, r):
        c = [c for c in cur[0].calls if c["f"] == "transm"][-1]
        c.update(JFLAG=r[0], FLOW=cp(r[1]), SADJ=cp(r[2]), BN1=cp(d["BN"]), BB=cp(d["BB"]), ZB=cp(d["ZB"]),
                 LT=cp(d["LT"]))

    rec.hook("transm", b_transm, a_transm)
    if tm2:
        def b_tm2(d):
            c = [c for c in cur[0].calls if c["f"] == "transm"][-1]
            c["tm2"].append(dict(BN=cp(d["BN"]), BLP=cp(d["BLP"]), NLS=d["NLS"], JFLAG=d["JFLAG"]))

        def a_tm2(d, r):
            c = [c for c in cur[0].calls if c["f"] == "transm"][-1]
            c["tm2"][-1].update(FLOW=cp(r[0]), BN1=cp(d["BN"]), INDIC=r[1])

        rec.hook("tm2", b_tm2, a_tm2)
    seen = set()

    def loss(f, d):
        seen.add(f)
        log(f=f, NST=int(d["NST"]), MARGIN=np.array(d["MARGIN"]).copy())

    rec.hook("hrstat", lambda d: loss("hrstat", d))
    rec.hook("pkstat", lambda d: loss("pkstat", d))

    def a_hour(d, r):
        for f, c in (("hrstat", "H"), ("pkstat", "P")):
            if f not in seen and any(np.any(np.asarray(d["LOL%s%s%s" % (g, c, x)]) > 0) for g in "GT" for x in "AP"):
                raise HookMissing("losses are counted, but not by " + f)

    try:
        rec.hook("hour", None, a_hour)
    except HookMissing:
        pass
    if annual:
        ks = ANNUAL_A + ANNUAL_P
        rec.hook("year", lambda d: (inject(d, T) if inject else None, log(f="year", CLOCK=d["CLOCK"], LSTEP=d["LSTEP"], NFCST=d["NFCST"], NORR=d["NORR"],
                                       annual={k: np.array(d[k]).copy() for k in ks},
                                       tot0={k: np.array(d[k]).copy() for k in TOTALS})),
                 lambda d, r: cur[0].calls[-1 if cur[0].calls[-1]["f"] == "year" else [
                     i for i, c in enumerate(cur[0].calls) if c["f"] == "year"][-1]].update(
                     after={k: np.array(d[k]).copy() for k in ks},
                     tot={k: np.array(d[k]).copy() for k in TOTALS}, RFLAG=r[5]))
        rec.hook("cvchk", None, lambda d, r: log(f="cvchk", arg=dict(d), ret=r))
        rec.hook("intm", lambda d: log(f="intm", IYEAR=int((d["CLOCK"] + 1) / 8760)))
    rec.hook("report", None, lambda d, r: (T.reports.append(int(d["IYEAR"])), log(f="report", IYEAR=int(d["IYEAR"]))))

    def a_data(d, r):
        if len(r) != len(RET):
            raise HookMissing("data preparation returns %d values" % len(r))
        T.data = {k: cp(v) for k, v in zip(RET, r)}

    rec.hook("dataf1", None, a_data)
    if extra:
        extra(T, cur, log)
    try:
        if errstate:
            with np.errstate(**errstate):
                rec.fn("narpMain")(path)
        else:
            rec.fn("narpMain")(path)
        flush()
    finally:
        rec.unhook()
    return T
