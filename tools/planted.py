"""Development aid: applies each change of seeded/ to a copy of the repository and runs checks on it.

    planted.py [-j N] [-a] [ID ...]     -a: all checks, not only that of the property
Prints one markdown row per change.  Nothing registered in MANIFEST.json uses it.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/planted"


def one(x):
    i, allc = x
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    d = os.path.join(W, i)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    subprocess.run(["git", "-C", d, "apply", os.path.join(HERE, "seeded", i, "patch.diff")], check=True)
    cs = ["C%02d" % k for k in range(1, 100) if os.path.exists(os.path.join(HERE, "checks", "c%02d.py" % k))] if allc else [m["property"]]
    res, key = [], ""
    for c in cs:
        r = subprocess.run([os.path.join(HERE, "check.sh"), c, "quick"], env=dict(os.environ, VERIF_REPO=d, VERIF_EVID=os.path.join(d, ".ev"), VERIF_SEED="1"),
                           capture_output=True, text=True)
        if r.returncode == 1:
            res.append(c)
            if c == m["property"]:
                key = ([l.strip() for l in r.stdout.splitlines() if l.startswith("  ") and "observed" not in l] or [""])[0].split(":")[0]
        elif r.returncode:
            res.append(c + "?")
    shutil.rmtree(d)
    print("| %s | %s | %s | %s |" % (i, m["property"], ", ".join(res) or "none", key), flush=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    n = 2
    if "-j" in a:
        k = a.index("-j")
        n = int(a[k + 1])
        del a[k: k + 2]
    allc = "-a" in a
    ids = [x for x in a if x != "-a"] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    os.makedirs(W, exist_ok=True)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, [(i, allc) for i in ids]))
