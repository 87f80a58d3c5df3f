"""an interruption leaves the last complete snapshot usable"""
import inspect
import os
import resource
import shutil
import signal
import sys

import numpy as np

from checks import c25
from lib import e2e, gen, jobs as J, rec
from lib.common import REPO, Inconclusive, Stop, isolated, tick

RULE = ("a case is one interruption: the process ends, or an operation of it fails, at a chosen statement, file operation or file size while a "
        "snapshot is written, or at a chosen event of the simulation; what DUMP.pkl holds afterwards is compared with the snapshots of the "
        "undisturbed run; non-trivial cases hit a run that had an earlier snapshot to lose")
REQUIRE = {"killed_at_statement": 30, "killed_at_operation": 20, "failed_operation": 20, "killed_at_size": 20, "disk_full": 20,
           "earlier_snapshot": 80, "first_snapshot": 20, "killed_at_event": 15, "continued": 6, "old_kept": 40,
           "after_year_30": 40}
FILE = "DUMP.pkl"
OPS = ("open", "os.rename", "os.remove", "os.truncate", "shutil.move", "shutil.copyfile", "os.link", "os.symlink")


def load(path):
    """the snapshot of a directory: None if there is none, False if it cannot be read"""
    p = os.path.join(path, FILE)
    if not os.path.exists(p):
        return None
    try:
        s = rec.fn("rstart")(p)
        return {k: (np.asarray(v).tolist() if isinstance(v, (np.ndarray, list, tuple)) else float(v)) for k, v in s.items()}
    except Exception as e:
        return "%s: %s" % (type(e).__name__, str(e)[:80])


def arm(fault, hit):
    """prepare this process for its fault; `hit` counts what could have been hit"""
    kind, n = fault
    root = os.path.realpath(REPO) + os.sep

    if kind in ("statement", "count"):
        def local(frame, ev, arg):
            if ev in ("line", "return"):
                hit[0] += 1
                if kind == "statement" and hit[0] == n:
                    os._exit(9)
            return local

        def tr(frame, ev, arg):
            return local if os.path.realpath(frame.f_code.co_filename).startswith(root) else None

        sys.settrace(tr)
    if kind in ("operation", "failure", "count"):
        here = os.getcwd()

        def audit(name, args):
            if name in OPS and not (name == "open" and str(args[0]).startswith((root, "/usr/", "/opt/", sys.prefix))):
                hit[1] += 1
                if hit[1] == n and kind != "count":
                    if kind == "operation":
                        os._exit(9)
                    raise OSError(5, "Input/output error")

        assert here
        sys.addaudithook(audit)
    if kind in ("size", "full"):
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kind == "size" else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))


def attempt(real, a, k, d, fault):
    """write the snapshot in directory d, which has the files of this one, under a fault; -> (how it ended, counts)"""
    os.mkdir(d)
    for f in os.listdir("."):
        if os.path.isfile(f):
            shutil.copy(f, d)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.close(r)
        code = 1
        try:
            os.chdir(d)
            hit = [0, 0]
            try:
                arm(fault, hit)
                real(*a, **k)
                code = 0
            except (OSError, MemoryError):
                code = 3
            sys.settrace(None)
            os.write(w, ("%d %d" % tuple(hit)).encode())
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    st = os.waitpid(pid, 0)[1]
    tick()
    end = "killed by signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else {0: "done", 3: "error", 9: "killed"}.get(os.WEXITSTATUS(st), "failed")
    return end, [int(x) for x in data.split()] if data else None


def run(job, out):
    case = J.case_of(job)
    rng = np.random.default_rng(job["s"])
    mc = case["mc"]
    base = os.getcwd()
    dirs = []

    def campaign():
        """the undisturbed run, with the faults tried on copies of its directory just before a snapshot is written"""
        rec.load_all()
        real = rec.fn("intm")
        seen = [0]
        log = []

        def w(*a, **k):
            seen[0] += 1
            n = seen[0]
            if n not in job["at"]:
                return real(*a, **k)
            old = load(".")
            d0 = os.path.join(base, "dry%d" % n)
            end, hits = attempt(real, a, k, d0, ("count", 0))
            new = load(d0)
            size = os.path.getsize(os.path.join(d0, FILE)) if end == "done" and isinstance(new, dict) else 0
            faults = []
            if hits:
                L, O = hits
                pick = list(range(1, L + 1)) if L <= 12 else sorted(set([1, 2, 3] + list(range(L - 5, L + 1)) + [int(x) for x in rng.integers(1, L + 1, 4)]))
                faults += [("statement", x) for x in pick]
                faults += [("operation", x) for x in range(1, min(O, 12) + 1)]
                faults += [("failure", x) for x in range(1, min(O, 12) + 1)]
                sizes = sorted(set([0, 1, 100, size // 3, size // 2, size - 4096, size - 1] + [int(x) for x in rng.integers(1, max(size, 2), 3)]))
                for x in sizes:
                    if 0 <= x < max(size, 1):
                        faults += [("size", x), ("full", x)]
            res = []
            for i, f in enumerate(faults):
                d = os.path.join(base, "f%d-%d" % (n, i))
                end1, _ = attempt(real, a, k, d, f)
                res.append((f, end1, load(d), d))
            r = real(*a, **k)
            log.append(dict(n=n, year=int((rec.binder(real, rec.SIG["intm"][1])(a, k)["CLOCK"] + 1) / 8760), old=old, new=new, end=end, size=size, res=res, now=load(".")))
            return r

        w.__name__, w.__wrapped__ = "intm", real
        if "at" in job:
            rec.replace(real, w)
        A = c25.go(case, None, "full")
        return A, log

    k, r = isolated(campaign)
    if k != "ok":
        out.violation(k, "the undisturbed run fails: %s" % (r,))
        return
    A, log = r
    ny = len(A["years"])
    out.count("runs")
    snaps = sorted(A["dump"])
    todo = []
    for c in log:
        what = "snapshot %d (year %d)" % (c["n"], c["year"])
        if not out.check(c["end"] == "done" and isinstance(c["new"], dict) and c["new"] == c["now"], "unreadable",
                         "%s: written without any disturbance (%s) it reads as %s" % (what, c["end"], str(c["now"])[:200])):
            return
        out.check((c["old"] is None) == (c["n"] == 1) and (c["old"] is None or isinstance(c["old"], dict)), "before",
                  "%s: before it, the directory holds %s" % (what, str(c["old"])[:100]))
        for (kind, x), end, s, d in c["res"]:
            name = {"statement": "killed_at_statement", "operation": "killed_at_operation", "failure": "failed_operation", "size": "killed_at_size",
                    "full": "disk_full"}[kind]
            t = "%s of %d bytes, %s %s: ended %s" % (what, c["size"], name.replace("_", " "), x, end)
            if end == "done":
                out.check(s == c["new"], "not-written", "%s, but the snapshot is not the new one (%s)" % (t, str(s)[:100] if not isinstance(s, dict) else "the old one"))
                continue
            if not out.check(end != "failed", "disturbed", t):
                continue
            out.count(name)
            out.count("earlier_snapshot" if c["old"] is not None else "first_snapshot")
            if c["old"] is None and s is None:
                out.case()
                todo.append((d, None, t))
                continue
            if s is None:
                out.violation("lost", "%s; the earlier snapshot is gone and no new one there" % t)
                continue
            if not isinstance(s, dict):
                out.violation("damaged", "%s; what is left cannot be loaded (%s)%s" % (t, s, ", the earlier snapshot is gone" if c["old"] else ""))
                continue
            if not out.check(s == c["new"] or s == c["old"], "mixed", "%s; what is left is neither the earlier snapshot nor the new one" % t):
                continue
            out.count("after_year_30", int(c["year"] > 30))
            out.count("old_kept" if s == c["old"] else "new_there")
            out.case((job["s"], c["n"], kind, x) if c["old"] is not None else None)
            todo.append((d, c["year"] if s == c["new"] else snaps[c["n"] - 2], t))
        if out.nviol:
            return
    # what is left can be taken over, whatever else lies in the directory
    if todo:
        kinds = {}
        for t in todo:
            kinds.setdefault((t[1], tuple(sorted(os.listdir(t[0])))), []).append(t)
        for key in sorted(kinds, key=str)[:4]:
            d, n, t = kinds[key][int(rng.integers(len(kinds[key])))]
            if n is not None and n >= ny:
                continue
            snap = None
            if n is not None:
                snap = os.path.join(base, "left-%s.pkl" % os.path.basename(d))
                shutil.copy(os.path.join(d, FILE), snap)

            def cont():
                os.chdir(d)
                return c25.go(case, snap, "c")

            k, B = isolated(cont)
            what = "%s; then %s" % (t, "started again" if snap is None else "resumed after year %d" % n)
            if not out.check(k == "ok", k, "%s: %s" % (what, B)):
                return
            c25.compare(out, A, B, n or 0, what)
            out.count("continued")
            if out.nviol:
                return
    # the process ends somewhere in the simulation
    tot = A.get("n") or 0
    for x in job.get("events", []):
        d = os.path.join(base, "e%d" % x)
        os.mkdir(d)
        pid = os.fork()
        if pid == 0:
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                os.chdir(d)
                done = [0, 0]

                def on_event(ev, T):
                    done[0] += 1
                    done[1] = max([done[1]] + [c["IYEAR"] for c in ev.calls if c["f"] == "intm"])
                    if done[0] >= x:
                        with open("where", "w") as f:
                            f.write("%d" % done[1])
                        os._exit(9)

                e2e.simulate(case, on_event=on_event, draws=False, bound=J.bound_of(case))
            finally:
                os._exit(0)
        st = os.waitpid(pid, 0)[1]
        tick()
        if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 9):
            continue  # over before
        n = int(open(os.path.join(d, "where")).read())
        s = load(d)
        out.count("killed_at_event")
        want = A["dump"].get(n) if n else None
        out.check(s == want, "at-event", "the process ends at event %d, after the snapshot of year %d: DUMP.pkl %s" % (
            x, n, "is missing" if s is None else "cannot be loaded: %s" % s if not isinstance(s, dict) else "holds something else"))
        out.case((job["s"], "event", x) if n else None)
    out.sample(case=J.describe(case), snapshots=snaps, faults=[(c["n"], c["size"], len(c["res"])) for c in log])


def jobs(tier, rng):
    q = tier == "quick"
    r = []
    for i, s in enumerate(J.seeds(rng, 8 if q else 60)):
        r.append(dict(s=s, tw=[], at=[1, 2, 3] if i % 2 else [1, 3], events=sorted(int(x) for x in rng.integers(20, 4000, 6 if q else 12)), case=dict(
            n_area=1 + i % 4, units_per_area=[3, 6, 4, 5][i // 2 % 4], stress=0.9, lfu=bool(i % 3 == 0), contracts=bool(i % 4 == 3), maint="pre" if i % 2 else "none",
            mc=dict(FIN=[4, 7, 5][i % 3], STEP=24, FREQ=[1, 24][i // 2 % 2], IN=[1, 2][i % 2], IJ=i % 2, CVT=[1e-9, 0.4][i % 2]))))
    for i, s in enumerate(J.seeds(rng, 3 if q else 20)):  # late snapshots, and those of many areas
        long = i % 3 < 2
        r.append(dict(s=s, tw=[], at=[3, 8 + i % 3] if long else [1, 2], events=[], case=dict(
            n_area=1 + i % 2 if long else 9, units_per_area=4, stress=0.9, lfu=bool(i % 2), contracts=False, maint="pre" if i % 2 else "none",
            mc=dict(FIN=[46, 62][i % 2] if long else 3, STEP=24, FREQ=24, IN=[4, 5][i % 2] if long else 1, IJ=0, CVT=1e-9))))
    for i, s in enumerate(J.seeds(rng, 3 if q else 20)):  # late snapshots, and those of many areas
        long = i % 3 < 2
        r.append(dict(s=s, tw=[], at=[3, 8 + i % 3] if long else [1, 2], events=[], case=dict(
            n_area=1 + i % 2 if long else 9, units_per_area=4, stress=0.9, lfu=bool(i % 2), contracts=False, maint="pre" if i % 2 else "none",
            mc=dict(FIN=[46, 62][i % 2] if long else 3, STEP=24, FREQ=24, IN=[4, 5][i % 2] if long else 1, IJ=0, CVT=1e-9))))
    return r
