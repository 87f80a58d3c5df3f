"""Harness: jobs, verdicts, evidence, replay files.

A check module (checks/cNN.py) offers
    RULE            what a case is and when it is non-trivial (text for the evidence)
    REQUIRE         {counter: minimum over the whole run}; below it the run is inconclusive
    jobs(tier, rng) list of job descriptions (plain JSON-able dicts)
    run(job, out)   runs one job, reports into `out` (class Out)
Every job runs in its own forked process with its own scratch directory, because the
program under test keeps module level state, writes files into the current directory
and may not come back.  A job description is all that is needed to run it again.
"""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
NPROC = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 1)))
MAXV = 40  # violations kept per job


class Inconclusive(Exception):
    """the monitors could not decide"""


class HookMissing(Inconclusive):
    """a function to be observed does not exist (any more)"""


class Stop(BaseException):
    """ends a job early (a violation is already recorded)"""


class Hang(BaseException):
    pass


class Out:
    def __init__(self):
        self.viol = []
        self.nviol = 0
        self.counts = {}
        self.nt = set()
        self.samples = []
        self.n = 0
        self.notes = []

    def count(self, key, k=1):
        self.counts[key] = self.counts.get(key, 0) + int(k)

    def case(self, nontrivial=None, k=1):
        """one evaluation; `nontrivial` is a hashable description if it is not trivial"""
        self.n += k
        if nontrivial is not None:
            self.nt.add(hashlib.md5(repr(nontrivial).encode()).hexdigest()[:12])

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(jsonable(kw))

    def violation(self, key, msg, **detail):
        self.nviol += 1
        if len(self.viol) < MAXV:
            self.viol.append(dict(key=key, msg=str(msg)[:800], detail=jsonable(detail)))

    def check(self, cond, key, msg, **detail):
        if not cond:
            self.violation(key, msg, **detail)
        return bool(cond)

    def pack(self):
        return dict(viol=self.viol, nviol=self.nviol, counts=self.counts, nt=sorted(self.nt),
                    samples=self.samples, n=self.n, notes=self.notes)


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in list(x)[:400]]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist() if x.size <= 400 else x.ravel()[:400].tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


# --------------------------------------------------------------------------- progress
PROGRESS = [0]  # bumped by the hooks: the watchdog distinguishes slow from stuck


def tick():
    PROGRESS[0] += 1


def _watchdog(cpu_s):
    """raise Hang when `cpu_s` seconds of cpu time pass without any progress"""
    last = [-1]

    def h(sig, frame):
        if PROGRESS[0] == last[0]:
            raise Hang("no progress in %d s of cpu time\n%s" % (
                cpu_s, "".join(traceback.format_stack(frame)[-6:])))
        last[0] = PROGRESS[0]

    signal.signal(signal.SIGPROF, h)
    signal.setitimer(signal.ITIMER_PROF, cpu_s, cpu_s)


def in_repo(tb):
    """the frames of a traceback that belong to the program under test"""
    fr = traceback.extract_tb(tb)
    return [f for f in fr if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]


def crash_text(e):
    fr = in_repo(e.__traceback__)
    where = "%s:%d" % (os.path.basename(fr[-1].filename), fr[-1].lineno) if fr else "?"
    return "%s: %s at %s" % (type(e).__name__, str(e)[:200], where)


def _child(conn, mod, job, quiet):
    out = Out()
    status = "ok"
    note = ""
    tmp = tempfile.mkdtemp(prefix="verif-job-")
    os.chdir(tmp)
    os.environ["HOME"] = tmp
    if quiet:
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
    try:
        _watchdog(getattr(mod, "CPU_STUCK", 75))
        mod.run(job, out)
    except Stop:
        pass
    except Hang as e:
        out.violation("hang", "the program does not get on: %s" % e)
    except Inconclusive as e:
        status, note = "inconclusive", "%s: %s" % (type(e).__name__, e)
    except MemoryError as e:
        status, note = "inconclusive", "MemoryError %s" % e
    except SystemExit as e:
        out.violation("exit", "the program ended itself (%s)" % (e,), trace=traceback.format_exc()[-1500:])
    except Exception as e:
        if in_repo(e.__traceback__):
            out.violation("crash", "valid input ends in an error: " + crash_text(e),
                          trace=traceback.format_exc()[-1500:])
        else:
            # what was observed does not have the form every correct program produces
            out.violation("malformed", "observation cannot be interpreted: %s: %s" % (type(e).__name__, e),
                          trace=traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)
    try:
        conn.send((status, note, out.pack()))
        conn.close()
    except Exception:
        pass
    sys.stderr.flush()
    os._exit(0)


def isolated(fn, *a):
    """fn(*a) in a forked child of its own; its result must be picklable"""
    import pickle

    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            _watchdog(75)
            try:
                res = ("ok", fn(*a))
            except Hang as e:
                res = ("hang", str(e))
            except Inconclusive as e:
                res = ("inc", str(e))
            except (Exception, SystemExit) as e:
                res = ("crash" if in_repo(e.__traceback__) else "malformed", crash_text(e) + "\n" + traceback.format_exc()[-1200:])
            except BaseException as e:
                res = ("stop", repr(e))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    tick()
    if not data:
        raise Inconclusive("a helper process died")
    k, v = pickle.loads(data)
    if k == "inc":
        raise Inconclusive(v)
    return k, v


def run_jobs(mod, jobs, quiet=True, wall=780, nproc=None):
    """[(job, status, note, packed)], never more than `wall` seconds"""
    nproc = nproc or NPROC
    t0 = time.time()
    todo = list(enumerate(jobs))[::-1]
    live = {}
    res = [None] * len(jobs)
    ctx = mp.get_context("fork")
    while todo or live:
        while todo and len(live) < nproc:
            i, job = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, mod, job, quiet))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        ready = mp.connection.wait([v[1] for v in live.values()], timeout=0.5)
        for i in list(live):
            p, a, t = live[i]
            if a in ready:
                try:
                    res[i] = (jobs[i],) + a.recv()
                except EOFError:
                    res[i] = (jobs[i], "inconclusive", "job process died", Out().pack())
                a.close()
                p.join(5)
                if os.environ.get("VERIF_TIMES"):
                    print("  %6.1f s  %s" % (time.time() - t, str(jobs[i])[:150]), flush=True)
                del live[i]
        if time.time() - t0 > wall:
            for i in list(live):
                p, a, t = live[i]
                p.kill()
                p.join()
                res[i] = (jobs[i], "inconclusive", "not finished in time", Out().pack())
                del live[i]
            for i, job in todo:
                res[i] = (job, "inconclusive", "not started in time", Out().pack())
            todo = []
    return res


def known(prop):
    """keys of the known findings of a property: {key: text}"""
    d = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                f = dict(w.split("=", 1) for w in line[6:].split()[:2])
                if f.get("property") == prop:
                    d[f["key"]] = line.split(None, 3)[3] if len(line.split(None, 3)) > 3 else ""
    return d


# how often the quick tier repeats its jobs with other seeds (about 25 s altogether)
ROUNDS = dict(C01=6, C02=2, C03=3, C04=3, C05=4, C06=4, C07=3, C08=4, C09=2, C10=6, C11=4, C12=2, C13=4, C14=5, C15=4, C16=6, C17=3, C19=2, C20=5, C21=4, C22=2, C23=3, C24=3,
              C28=2, C29=6, C30=5, C31=3, C32=5, C33=6, C35=5, C39=3)


def main(prop, mod, tier, seed):
    import numpy as np

    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    rng = np.random.default_rng([seed, int(prop[1:]), 0 if tier == "quick" else 1])
    jobs = mod.jobs(tier, rng)
    wall = int(os.environ.get("VERIF_WALL", 780 if tier == "quick" else 3300))
    res = run_jobs(mod, jobs, wall=wall)
    kn = known(prop)
    # further rounds of the quick tier: the same kinds of jobs with other seeds, as long as all is quiet and there is time
    more, rounds = ROUNDS.get(prop, 1) if tier == "quick" else 1, 1
    more = int(os.environ.get("VERIF_ROUNDS", more))
    while rounds < more and time.time() - t0 < 150 and not any(v["key"] not in kn for r in res for v in r[3]["viol"]) and all(r[1] == "ok" for r in res):
        extra = mod.jobs(tier, np.random.default_rng([seed, int(prop[1:]), 0, rounds]))
        # what an added round does not finish in time is left out
        res += [r for r in run_jobs(mod, extra, wall=max(60, 300 - (time.time() - t0))) if r[1] == "ok" or r[3]["viol"] or "in time" not in r[2]]
        jobs = jobs + extra
        rounds += 1
    counts, nt, n, samples, viol, nviol, inc = {}, set(), 0, [], [], 0, []
    seen_known = {}
    for job, status, note, o in res:
        for k, v in o["counts"].items():
            counts[k] = counts.get(k, 0) + v
        nt.update(o["nt"])
        n += o["n"]
        if len(samples) < 4:
            samples += o["samples"][:1]
        for v in o["viol"]:
            if v["key"] in kn:
                seen_known.setdefault(v["key"], v)
            else:
                viol.append((job, v))
        if status != "ok":
            inc.append((job, note))
    nviol = len(viol)
    for k, text in kn.items():
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        else:
            print("note: the known finding %s was not exercised in this run" % k)
    lack = {k: (counts.get(k, 0), m) for k, m in getattr(mod, "REQUIRE", {}).items() if counts.get(k, 0) < m}
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=n, distinct_nontrivial=len(nt), rule=mod.RULE,
                            samples=samples or [jsonable(jobs[0])], jobs=len(res), rounds=rounds, observed=counts,
                            inconclusive_jobs=len(inc), known_findings_seen=sorted(seen_known)),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed %d: %d jobs, %d evaluations, %d distinct non-trivial, %.1f s" % (
        prop, tier, seed, len(res), n, len(nt), time.time() - t0))
    print("  observed: " + ", ".join("%s=%d" % kv for kv in sorted(counts.items())))
    if viol:
        shown = {}
        for job, v in viol:
            shown.setdefault(v["key"], (job, v))
        for i, (key, (job, v)) in enumerate(sorted(shown.items(), key=lambda kv: kv[0])[:6]):
            path = os.path.join(EVID, "replay-%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, job=jsonable(job), violation=v), f, indent=1)
            print("  %s: %s" % (key, v["msg"].splitlines()[0][:300] if v["msg"] else ""))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if inc or lack:
        for job, note in inc[:5]:
            print("INCONCLUSIVE %s: %s" % (jsonable(job), note))
        if lack:
            print("INCONCLUSIVE too few observations: %s" % lack)
        return 2
    print("HELD property=%s on everything explored" % prop)
    return 0


def replay(path, mods):
    r = json.load(open(path))
    mod = mods(r["property"])
    res = run_jobs(mod, [r["job"]], quiet=False)
    job, status, note, o = res[0]
    print(json.dumps(dict(status=status, note=note, counts=o["counts"], violations=o["viol"][:5]), indent=1))
    return 1 if o["viol"] else (0 if status == "ok" else 2)
