"""runs are reproducible"""
import json
import os
import subprocess
import sys

import numpy as np

from lib import common, gen, jobs as J, once
from lib.common import isolated

RULE = ("a case is one system run several times: alone, twice in one process, after a different system in one process, in a new process "
        "with another hash seed, after random numbers were drawn, from another directory by a relative path, where other runs left files, and at the same time as other runs; the traces and "
        "the output files are compared; non-trivial systems have losses")
REQUIRE = {"again": 8, "after_other": 8, "process": 8, "directory": 4, "leftovers": 8, "together": 4, "inputs_compared": 100, "loss": 5, "solved": 200}


def twice(path):
    a = once.observe(path)
    return a, once.observe(path)


def after(other, path):
    np.random.seed(77)
    import random

    random.seed(5)
    once.observe(other)
    np.random.random(100)
    return once.observe(path)


def elsewhere(path):
    d = os.path.abspath("deep/er")
    os.makedirs(d, exist_ok=True)
    rel = os.path.relpath(path, d)
    os.chdir(d)
    return once.observe(rel)


def process(path, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_REPO=common.REPO, TZ="Pacific/Auckland", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    d = os.path.abspath("proc")
    os.makedirs(d, exist_ok=True)
    r = subprocess.run([sys.executable, "-B", os.path.join(common.VERIF, "lib", "once.py"), path, os.path.join(d, "r.json")],
                       cwd=d, env=env, capture_output=True, text=True, timeout=600)
    if not os.path.exists(os.path.join(d, "r.json")):
        return "crash", r.stderr[-600:]
    x = json.load(open(os.path.join(d, "r.json")))
    return "ok", x


def together(paths, n):
    """n runs at the same time, each in a process and a directory of its own"""
    ps = []
    for i in range(n):
        d = os.path.abspath("con%d" % i)
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, PYTHONHASHSEED=str(i), VERIF_REPO=common.REPO, PYTHONDONTWRITEBYTECODE="1")
        ps.append((d, subprocess.Popen([sys.executable, "-B", os.path.join(common.VERIF, "lib", "once.py"), paths[i % len(paths)], os.path.join(d, "r.json")],
                                       cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    r = []
    for d, p in ps:
        err = p.communicate(timeout=900)[1]
        f = os.path.join(d, "r.json")
        r.append(("ok", json.load(open(f))) if os.path.exists(f) else ("crash", err[-600:]))
    return r


def leftovers(opath, path):
    """where another run, possibly an unfinished one, has left its files"""
    once.observe(opath)
    for f in ("output.txt", "traout.txt ", "extra.txt"):
        with open(f, "a") as g:
            g.write("left by another run\n")
    with open("DUMP.pkl", "wb") as g:
        g.write(b"not a snapshot")
    old = {f: open(f).read() for f in ("output.txt", "extra.txt")}
    x = once.observe(path, keep=True)
    for f, t in old.items():
        got = x["files"].get(f, "")
        if got.startswith(t):  # results are added to the file
            x["files"][f] = got[len(t):]
            if not x["files"][f]:
                del x["files"][f]
    return x


def digest(path):
    r = {}
    for base, ds, fs in os.walk(path):
        for f in fs:
            p = os.path.join(base, f)
            r[os.path.relpath(p, path)] = (open(p, "rb").read(), os.stat(p).st_mode)
    return r


def run(job, out):
    case = J.case_of(job)
    gen.write_case(case, "case")
    rng = np.random.default_rng(job["s"] + 1)
    o = job["case"]
    other = gen.random_case(rng, n_area=o.get("n_area"), units_per_area=5, stress=1.0, mc=dict(o["mc"], FIN=1, STEP=24))
    gen.write_case(other, "other")
    path, opath = os.path.abspath("case"), os.path.abspath("other")
    inputs = digest(path), digest(opath)
    os.makedirs("a")
    os.chdir("a")
    k, ref = isolated(once.observe, path)
    if not out.check(k == "ok", k, "the run fails: %s" % ref):
        return
    out.count("runs")
    out.count("loss", int(ref["loss"]))
    out.count("solved", ref["solved"])
    out.case(job["s"] if ref["loss"] else None)
    ref = json.loads(json.dumps(ref))

    def same(got, what, key):
        k, x = got
        out.count(key)
        if not out.check(k == "ok", k, "%s the run fails: %s" % (what, x)):
            return
        for d in once.differences(ref, json.loads(json.dumps(x)))[:3]:
            out.violation("differs-" + key, "%s the same input gives different results: %s" % (what, d))

    k, two = isolated(twice, path)
    if out.check(k == "ok", k, "the second run in a process fails: %s" % (two,)):
        same(("ok", two[0]), "in a fresh process", "again")
        same(("ok", two[1]), "a second time in one process", "again")
    same(isolated(after, opath, path), "after another system in the same process", "after_other")
    if job["proc"]:
        same(process(path, int(rng.integers(1, 2**31))), "in another process with another hash seed", "process")
    same(isolated(elsewhere, path), "from another directory", "directory")
    got = isolated(leftovers, opath, path)
    if got[0] == "ok" and "traout.txt" in got[1]["files"] and "traout.txt" not in ref["files"]:
        del got[1]["files"]["traout.txt"]  # the other run's
    same(got, "where another run left its files", "leftovers")
    if job["con"]:
        for i, x in enumerate(together([path, path, opath], 3)):
            if i == 2:
                out.check(x[0] == "ok", x[0], "the other system fails when run at the same time: %s" % (x[1],))
            else:
                same(x, "together with two other runs", "together")
    for a, b, what in ((inputs[0], digest(path), "its input"), (inputs[1], digest(opath), "the other input")):
        bad = [f for f in sorted(set(a) | set(b)) if a.get(f) != b.get(f)]
        out.check(not bad, "input-changed", "the runs changed, added or removed files of %s directory: %s" % (what, bad[:5]))
        out.count("inputs_compared", len(a))
    out.sample(case=J.describe(case), solved=ref["solved"], losses=ref["losses"], trace=ref["trace"][:16])


def jobs(tier, rng):
    q = tier == "quick"
    r = []
    for i, s in enumerate(J.seeds(rng, 12 if q else 110)):
        r.append(dict(s=s, proc=True, con=i % 3 == 0, tw=[["linestates"], []][i % 2], case=dict(
            n_area=2 + i % 3, units_per_area=4, stress=[0.75, 0.85, 1.0][i % 3], maint="pre" if i % 3 else "mix",
            mc=dict(FIN=[2, 3, 4][i % 3], STEP=24, FREQ=[1, 24][i // 2 % 2], IJ=i % 2, II=int(i % 4 == 1), IN=2, CVT=1e-9))))
    for i, s in enumerate(J.seeds(rng, 1 if q else 8)):
        r.insert(0, dict(s=s, proc=True, con=i % 4 == 1, tw=["linestates"], case=dict(n_area=3, units_per_area=4, stress=0.75,
                                                                      mc=dict(FIN=1, STEP=1, FREQ=24 if i % 2 == 0 else 1, CVT=1e-9))))
    return r
