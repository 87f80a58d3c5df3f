"""one run of a prepared case in the current directory: everything observable, as a digest

    python once.py CASE_DIRECTORY RESULT.json      (used as a separate process)
"""
import hashlib
import json
import os
import sys

if __name__ == "__main__":
    HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), HERE]

import numpy as np  # noqa: E402

FILES = ("output.txt", "traout.txt ", "traout.txt", "extra.txt")


def clean():
    for f in FILES + ("DUMP.pkl",):
        if os.path.exists(f):
            os.remove(f)


def observe(path, bound=None, keep=False):
    from lib import e2e

    keep or clean()
    h = hashlib.sha256()
    years, hours = [], [0, 0]

    def put(*v):
        for x in v:
            h.update(np.ascontiguousarray(np.asarray(x, float)).tobytes())

    def on_event(ev, T):
        put(ev.time, ev.kind)
        for c in ev.calls:
            if c["f"] == "gstate":
                put(c["SEED"], c["PCTAVL"], c["AVAIL"])
            elif c["f"] == "lstate":
                put(c["SEED"], c["LNSTAT"])
            elif c["f"] == "transm":
                hours[0] += 1
                put(c["SYSCON"], c["CAPREQ"], c["SADJ"], c["FLOW"])
            elif c["f"] in ("hrstat", "pkstat"):
                hours[1] += 1
                put(c["NST"], c["MARGIN"])
            elif c["f"] == "year":
                years.append(dict(annual={k: np.asarray(v, float).tolist() for k, v in c["annual"].items()},
                                  tot={k: np.asarray(v, float).tolist() for k, v in c["tot"].items()}))

    T = e2e.simulate(None, path=path, on_event=on_event, bound=bound)
    files = {}
    for f in FILES:
        if os.path.exists(f):
            files[f.strip()] = open(f).read()
    return dict(years=years, trace=h.hexdigest(), files=files, events=T.n, solved=hours[0], losses=hours[1], reports=T.reports,
                loss=any(np.any(y["annual"][k]) for y in years for k in ("LOLGHP", "LOLTHP", "LOLGPP", "LOLTPP")))


def differences(a, b):
    r = []
    if len(a["years"]) != len(b["years"]):
        return ["%d years instead of %d" % (len(b["years"]), len(a["years"]))]
    for i, (x, y) in enumerate(zip(a["years"], b["years"])):
        for g in ("annual", "tot"):
            for k in x[g]:
                if x[g][k] != y[g][k]:
                    return ["%s of year %d: %s instead of %s" % (k, i + 1, str(y[g][k])[:120], str(x[g][k])[:120])]
    if a["trace"] != b["trace"]:
        r.append("states, network solutions or recorded losses")
    for f in sorted(set(a["files"]) | set(b["files"])):
        p, q = a["files"].get(f), b["files"].get(f)
        if p != q:
            if p is None or q is None:
                r.append("file %s is written only once" % f)
                continue
            p, q = p.splitlines(), q.splitlines()
            i = next((i for i in range(min(len(p), len(q))) if p[i] != q[i]), min(len(p), len(q)))
            r.append("line %d of %s: %r instead of %r" % (i + 1, f, q[i: i + 1], p[i: i + 1]))
    return r


if __name__ == "__main__":
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    res = observe(sys.argv[1])
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)
