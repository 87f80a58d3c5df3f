"""Development aid: small syntactic changes of the program, filtered by its own tests, then shown to the checks.

    mutate.py list OUT.json [SEED] [CAP]       all mutants (at most CAP per file)
    mutate.py test IN.json OUT.json            those that survive the tests of the repository
    mutate.py check IN.json OUT.json           what the checks of their file say
Works on copies of /repo below /tmp/w/mu.  Nothing registered in MANIFEST.json uses it.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO = "/repo"
PKG = "reliabilityassessment"
W = "/tmp/w/mu"
N = int(os.environ.get("MU_N", 8))
SKIP = {"_initl", "_gstate", "_hrstat", "_pkstat", "_cvchk"}
CHECKS = dict(
    filem="C01 C02", remove="C01 C02", initl="C01 C02 C03", initfl="C20 C01 C12", contrl="C02 C22 C07 C12 C25", events="C02 C07 C12 C20 C25", hour="C02 C07 C12 C13 C19",
    week="C04 C01", quartr="C03 C01", year="C24 C20 C21 C22 C23 C25", cvchk="C22", report="C23 C21 C31", intm="C25", rstart="C25",
    findld="C09 C12", findtn="C11", sumcap="C08", gstate="C05 C35", lstate="C06 C35", seeder="C35", hrstat="C18", pkstat="C19",
    line_prob_sampling="C06", transm="C14 C15 C16 C17", tm1="C32 C14", tm2="C14 C15 C16 C17 C32 C34", admitb="C32", admitr="C32", admitm="C32", admref="C32", ximpa="C32", ximpar="C32",
    theta="C14 C32", thetac="C14 C32", flo="C14 C32", assign="C14 C15 C16", conls="C14 C15 C16 C29", connls="C14 C15 C16 C29", linp="C29 C14 C15", net="C14 C29", rm="C29 C14", rc="C29 C14", mc="C29 C14",
    dgefa="C33", dgeco="C33", dgedi="C33", narpMain="C03 C21 C12 C22 C31", dataf1="C31 C28 C10 C09", datax="C28 C04 C11 C22 C03 C31", dpeak="C10", wpeakf="C10", plhr="C10 C19", gsm="C30", pmlolp="C30",
    input_processing="C28 C31 C04", pind="C28", pmsc="C04 C34", readInputB="C28 C11 C24", resca="C31", smaint="C04", xldnew="C28 C09", xporta="C31", xports="C31")


def files():
    for sub in ("monte_carlo", "data_processing"):
        d = os.path.join(PKG, sub)
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith(".py") and f != "__init__.py":
                yield os.path.join(d, f)


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//"}
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%"}


def mutants(path):
    src = open(os.path.join(REPO, path), newline="").read()
    nl = "\r\n" if "\r\n" in src else "\n"
    text = src.replace("\r\n", "\n")
    tree = ast.parse(text)
    lines = text.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    data = text.encode()

    def seg(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(a, b, new, what):
        t = data[:a] + new.encode() + data[b:]
        try:
            ast.parse(t)
        except SyntaxError:
            return
        out.append(dict(file=path, line=text[: len(data[:a].decode())].count("\n") + 1, what="%s: %r -> %r" % (what, data[a:b].decode()[:60], new[:60]),
                        text=t.decode().replace("\n", nl)))

    def visit(n, infn):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in SKIP or n.name.startswith("_"):
                return
            infn = True
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return  # docstring
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if nm in ("print", "write", "open"):
                for c in n.args:
                    visit(c, infn)
                return
            if nm in ("min", "max") and isinstance(f, ast.Name):
                a, b = seg(f)
                add(a, b, {"min": "max", "max": "min"}[nm], "minmax")
            if nm == "copy" and isinstance(f, ast.Attribute) and not n.args:
                a, b = seg(n)
                add(a, b, data[slice(*seg(f.value))].decode(), "nocopy")
            if nm in ("abs", "int") and isinstance(f, ast.Name) and len(n.args) == 1:
                a, b = seg(n)
                add(a, b, "(" + data[slice(*seg(n.args[0]))].decode() + ")", "no" + nm)
        if infn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                a, b = seg(n)
                l, r = data[slice(*seg(n.left))].decode(), data[slice(*seg(n.comparators[0]))].decode()
                add(a, b, "%s %s %s" % (l, CMP[type(n.ops[0])], r), "cmp")
            if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                a, b = seg(n)
                l0, l1 = seg(n.left)
                r0, r1 = seg(n.right)
                mid = data[l1:r0].decode()
                if OPS[type(n.op)] in mid:
                    add(l1, r0, mid.replace(OPS[type(n.op)], BIN[type(n.op)], 1), "op")
            if isinstance(n, ast.BoolOp):
                v = n.values
                for x, y in zip(v, v[1:]):
                    a, b = seg(x)[1], seg(y)[0]
                    m = data[a:b].decode()
                    add(a, b, m.replace("and", "or") if "and" in m else m.replace("or", "and"), "bool")
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                a, b = seg(n)
                v = n.value
                for w in ([v + 1, v - 1] if isinstance(v, int) else [v * 2 + 1.0]):
                    add(a, b, repr(w) if w >= 0 else "(%r)" % w, "const")
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                a, b = seg(n)
                add(a, b, repr(not n.value), "const")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                a, b = seg(n)
                if not isinstance(n.operand, ast.Constant):
                    add(a, b, "(" + data[slice(*seg(n.operand))].decode() + ")", "unary")
            if isinstance(n, ast.If):
                a, b = seg(n.test)
                add(a, b, "not (%s)" % data[a:b].decode().replace("\n", " "), "ifnot")
            if isinstance(n, ast.AugAssign):
                a, b = seg(n)
                t = data[a:b].decode()
                for x, y in (("+=", "-="), ("-=", "+="), ("+=", "="), ("-=", "=")):
                    if " " + x + " " in t:
                        add(a, b, t.replace(" " + x + " ", " " + y + " ", 1), "aug")
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                a, b = seg(n)
                add(a, b, "pass", "del")
            if isinstance(n, ast.Subscript):
                s = n.slice
                if isinstance(s, ast.Tuple) and len(s.elts) == 2:
                    (a, b), (c, d) = seg(s.elts[0]), seg(s.elts[1])
                    add(a, d, "%s, %s" % (data[c:d].decode(), data[a:b].decode()), "transpose")
        for c in ast.iter_child_nodes(n):
            visit(c, infn)

    visit(tree, False)
    return out


def mine():
    """lines that a fix commit wrote (they are not the original program's)"""
    d = {}
    r = subprocess.run(["git", "-C", REPO, "diff", "-U0", "8164bcb", "HEAD"], capture_output=True, text=True).stdout
    f = None
    for l in r.splitlines():
        if l.startswith("+++ "):
            f = l[6:].strip()
        elif l.startswith("@@"):
            x = l.split("+")[1].split("@@")[0].strip().split(",")
            a, k = int(x[0]), int(x[1]) if len(x) > 1 else 1
            d.setdefault(f, set()).update(range(a, a + k))
    return d


def pool(n, fn, items):
    q = Queue()
    for k in range(n):
        d = "%s/%d" % (W, k)
        if not os.path.isdir(d):
            os.makedirs(W, exist_ok=True)
            shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        q.put(d)

    def one(m):
        d = q.get()
        try:
            p = os.path.join(d, m["file"])
            old = open(os.path.join(REPO, m["file"]), newline="").read()
            with open(p, "w", newline="") as f:
                f.write(m["text"])
            try:
                return fn(d, m)
            finally:
                with open(p, "w", newline="") as f:
                    f.write(old)
        finally:
            q.put(d)

    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(one, items))


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONPYCACHEPREFIX="/nonexistent")


def tests(d, m):
    for f in ("output.txt", "extra.txt", "traout.txt "):
        if os.path.exists(os.path.join(d, f)):
            os.remove(os.path.join(d, f))
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--runslow", "--benchmark-disable", "--timeout=60"],
                           cwd=d, env=ENV, capture_output=True, timeout=200)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def check(d, m):
    k = os.path.basename(m["file"])[:-3]
    res = {}
    for c in CHECKS[k].split():
        t = time.time()
        e = os.path.join(d, ".evid")
        r = subprocess.run(["/verif/check.sh", c, "quick"], env=dict(ENV, VERIF_REPO=d, VERIF_EVID=e, VERIF_JOBS="1", VERIF_WALL="3000", VERIF_SEED="1"), capture_output=True, text=True)
        res[c] = [r.returncode, round(time.time() - t), [l.strip() for l in r.stdout.splitlines() if l.startswith("  ") and "observed" not in l][:1] or r.stdout[-200:]]
        if r.returncode == 1:
            break
    m["res"] = res
    print(m["file"], m["line"], m["what"], {c: v[0] for c, v in res.items()}, flush=True)
    return res


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "list":
        rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
        cap = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
        only = sys.argv[5:] 
        mn = mine()
        al = []
        for f in files():
            if only and os.path.basename(f)[:-3] not in only:
                continue
            ms = [m for m in mutants(f) if m["line"] not in mn.get(f, ())]
            rng.shuffle(ms)
            print(f, len(ms))
            al += ms[:cap]
        json.dump(al, open(sys.argv[2], "w"))
        print(len(al))
    elif cmd == "test":
        ms = json.load(open(sys.argv[2]))
        ok = pool(N, tests, ms)
        live = [m for m, o in zip(ms, ok) if o]
        json.dump(live, open(sys.argv[3], "w"))
        print("%d of %d survive the tests" % (len(live), len(ms)))
    elif cmd == "check":
        ms = json.load(open(sys.argv[2]))
        pool(N, check, ms)
        json.dump(ms, open(sys.argv[3], "w"))
        left = [m for m in ms if not any(v[0] == 1 for v in m["res"].values())]
        print("%d of %d reported" % (len(ms) - len(left), len(ms)))
        for m in left:
            print("MISSED %s:%d %s %s" % (m["file"], m["line"], m["what"], {c: v[0] for c, v in m["res"].items()}))
