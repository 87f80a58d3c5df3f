"""event calendar: the queue operations against a reference queue, and the events of whole runs"""
import numpy as np

from lib import jobs as J, rec
from lib.common import HookMissing

RULE = ("a case is one operation sequence on the event queue or one event of a run; non-trivial when events of "
        "equal time, insertions at the front, in the middle and at the end occur, or when an event of a run is "
        "followed by its successor")
REQUIRE = {"queue_ops": 2000, "queue_ties": 50, "events": 2000}
TAGS = {"calendar"}


def queue(job, out):
    rng = J.rng_of(job)
    initfl, filem, remove = (rec.fn(x) for x in ("initfl", "filem", "remove"))
    for it in range(job["n"]):
        MFA, IPOINT, EV = initfl()
        NUM = 0
        ref = []  # (time, kind), the last filed of equals first
        trace = []

        def put(t, kind):
            nonlocal NUM, MFA, IPOINT
            at = np.array([t, float(kind)])
            NUM, MFA, IPOINT = filem(MFA, at, NUM, IPOINT, EV)
            i = 0
            while i < len(ref) and ref[i][0] < t:
                i += 1
            if i < len(ref) and ref[i][0] == t:
                out.count("queue_ties")
            out.count("queue_front" if i == 0 else "queue_end" if i == len(ref) else "queue_middle")
            ref.insert(i, (t, kind))
            trace.append(("file", t, kind))
            out.count("queue_ops")

        def get():
            nonlocal NUM, MFA, IPOINT
            at = np.zeros(2)
            MFA, NUM, IPOINT = remove(NUM, at, EV, IPOINT)
            exp = ref.pop(0)
            out.count("queue_ops")
            trace.append(("take",) + exp)
            got = (float(at[0]), int(at[1]))
            if not out.check(got == exp, "queue-order", "event %s leaves, %s is due" % (got, exp), trace=trace[-30:]):
                return None
            if not out.check(NUM == len(ref), "queue-count", "%d events counted, %d filed" % (NUM, len(ref)), trace=trace[-30:]):
                return None
            return exp

        grid = float(rng.choice([0.5, 1, 24, 168]))
        k = int(rng.integers(1, 20))
        lo = 0.0
        for _ in range(k):
            put(lo + grid * int(rng.integers(0, 12)), int(rng.integers(1, 5)))
        ok = True
        for _ in range(int(rng.integers(5, 80))):
            e = get()
            if e is None:
                ok = False
                break
            lo = e[0]
            put(lo + grid * int(rng.choice([0, 1, 1, 2, 3, 7, 12, 40])), int(rng.integers(1, 5)))
        # nothing gets lost: empty it
        while ok and ref:
            ok = get() is not None
        if ok:
            out.check(IPOINT == -1, "queue-empty", "the emptied queue points at %s" % IPOINT, trace=trace[-30:])
        out.case((k, grid, len(trace), trace[-1]))
    out.sample(trace=trace[:12])


def start(job, out):
    """the calendar a run starts with"""
    rng = J.rng_of(job)
    initfl, initl, remove = (rec.fn(x) for x in ("initfl", "initl", "remove"))
    for it in range(job["n"]):
        wk = np.sort(rng.integers(1, 53, 3))
        step = int(rng.choice([1, 24]))
        MFA, IPOINT, EV = initfl()
        at, clock, IPOINT, MFA, NUM = initl(step, EV, wk * 168 + 0.5)
        exp = [(0.5, 3), (0.5, 2), (8760.0, 4), (float(step), 1)] + [(w * 168 + 0.5, 3) for w in wk]
        got = []
        out.check(NUM == 7 and clock == 0, "start-count", "%s events at the start, time %s" % (NUM, clock))
        try:
            while IPOINT != -1 and len(got) < 20:
                a = np.zeros(2)
                MFA, NUM, IPOINT = remove(NUM, a, EV, IPOINT)
                got.append((float(a[0]), int(a[1])))
        except SystemExit:
            out.violation("start-end", "the calendar claims to be empty after %s" % got)
            return
        out.check(sorted(got) == sorted(exp), "start-events", "the calendar starts with %s, not %s" % (got, sorted(exp)))
        out.check([t for t, k in got] == sorted(t for t, k in exp), "start-order", "initial events leave as %s" % got)
        out.count("starts")
        out.case((tuple(wk), step))


def run(job, out):
    if job["k"] == "queue":
        return queue(job, out)
    if job["k"] == "start":
        return start(job, out)
    sh, T, c = J.shadow_run(job, out, TAGS, draws=False)


def jobs(tier, rng):
    q = tier == "quick"
    kw = dict(n_area=2, units_per_area=3, lfu=False, stress=0.4)
    r = [dict(k="queue", s=s, n=60 if q else 3000) for s in J.seeds(rng, 4 if q else 16)]
    r += [dict(k="start", s=s, n=60 if q else 1000) for s in J.seeds(rng, 1 if q else 4)]
    r += J.hourly(rng, 3 if q else 16, ["weeks"], years=1 if q else 3, **kw)
    r += J.daily(rng, 4 if q else 24, ["weeks"], years=3 if q else 12, mc=dict(CVT=1e-9), **kw)
    r += J.daily(rng, 1 if q else 6, ["weeks"], years=120, mc=dict(CVT=1e-9), n_area=1, units_per_area=2, stress=0.8, lfu=False)
    return r
