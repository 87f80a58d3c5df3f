"""Random, seeded power systems in the input format of the program under test.

A case is a plain dict; write_case() puts it on disk as the CSV cards and the LEEI
file a user would prepare.  Nothing in here imports the program under test.
"""
import os

import numpy as np

HOURS = 8760


def load_shape(rng, flat=False):
    """a year of integer per-area loads with daily, weekly and seasonal swing"""
    h = np.arange(HOURS)
    day = h // 24
    ph = rng.uniform(0, 2 * np.pi, 3)
    s = (
        1.0
        + 0.18 * np.sin(2 * np.pi * (h % 24) / 24 + ph[0])
        + 0.08 * np.sin(2 * np.pi * day / 365 + ph[1])
        + 0.05 * np.sin(2 * np.pi * (day % 7) / 7 + ph[2])
    )
    if flat:
        s = np.ones(HOURS)
    s = s * (1 + 0.05 * rng.standard_normal(HOURS)).clip(0.8, 1.2)
    v = np.round(s * 2000).astype(int)
    # distinct values make every daily and weekly peak unambiguous
    return np.clip(v, 10, 9999)


def random_case(rng, n_area=None, lfu=None, contracts=None, owners=None, stress=None,
                flow_limit=None, mc=None, units_per_area=None, maint="mix", lines="auto",
                gen_areas=None):
    n = int(n_area if n_area is not None else rng.integers(2, 6))
    stress = float(stress if stress is not None else rng.uniform(0.72, 0.9))
    areas, units = [], []
    use_lfu = bool(rng.random() < 0.3) if lfu is None else bool(lfu)
    lim = bool(rng.random() < 0.3) if flow_limit is None else bool(flow_limit)
    names = ["A%d" % (i + 1) for i in range(n)]
    sn = 0
    for a in range(n):
        k = int(units_per_area if units_per_area is not None else rng.integers(4, 9))
        cap = 0
        for u in range(k):
            sn += 1
            c = int(rng.choice([20, 35, 50, 76, 100, 155, 197]))
            der4 = [c, c, c, c]
            if rng.random() < 0.4:
                der4 = [int(round(c * f)) for f in rng.choice([0.8, 0.9, 0.95, 1.0], 4)]
            out = float(np.round(rng.uniform(0.02, 0.12), 3))
            dfor = float(np.round(rng.uniform(0.0, 0.1), 3)) if rng.random() < 0.5 else 0.0
            der = int(rng.integers(20, 71)) if dfor else 0
            pa, b1, d1, b2, d2 = 0, 0, 0, 0, 0
            r = rng.random()
            if maint == "mix" and r < 0.5 or maint == "pre":
                pa = 1
                b1 = int(rng.integers(1, 50))
                d1 = int(rng.integers(1, 4))
                if rng.random() < 0.4:
                    b2 = int(rng.integers(1, 50))
                    d2 = int(rng.integers(1, 3))
                    if not (b2 + d2 <= b1 or b1 + d1 <= b2):
                        b2, d2 = 0, 0
            elif maint == "auto" or (maint == "mix" and r < 0.7):
                d1 = int(rng.integers(1, 4))
                if rng.random() < 0.3:
                    d2 = int(rng.integers(1, 3))
            units.append(dict(name="%s%02d%02d" % ("P%d" % a if n < 10 else "%02d" % a, u, 1),
                              loc=a, cap=der4, dfor=dfor, FOR=out, der=der, pa=pa,
                              b1=b1, d1=d1, b2=b2, d2=d2))
            cap += c
        peak = int(round(cap * stress * rng.uniform(0.85, 1.08)))
        areas.append(dict(name=names[a], peak=peak,
                          lfu=float(rng.choice([1, 2, 3, 4])) if use_lfu and rng.random() < 0.9 else 0.0,
                          win=(1, 52), forb=(0, 0),
                          flow=float(rng.integers(20, 150)) if lim else 30000.0))
    if use_lfu:
        areas[0]["lfu"] = 3.0
    tl = []
    if lines == "auto":
        edges = [(i, i + 1) for i in range(n - 1)]
        for i in range(n):
            for j in range(i + 2, n):
                if rng.random() < 0.4:
                    edges.append((i, j))
        perm = rng.permutation(len(edges))
        edges = [edges[k] for k in perm]
    else:
        edges = lines
    for (a, b) in edges:
        if rng.random() < 0.4:
            a, b = b, a
        p = np.array([0.8, 0.12, 0.05, 0.02, 0.007, 0.003])
        st = []
        base = int(rng.integers(20, 150))
        cf, cb = int(rng.integers(20, 140)), int(rng.integers(20, 140))
        for s in range(6):
            f = [1, 0.5, 0.0, 0.7, 0.3, 0.2][s]
            st.append((-float(round(base * f, 1)), float(int(cf * f)), float(int(cb * f)), float(p[s])))
        tl.append(dict(a=a, b=b, st=st))
    fc = []
    if contracts is None:
        contracts = rng.random() < 0.3
    if contracts and n > 1:
        for _ in range(int(rng.integers(1, 4))):
            a, b = (int(x) for x in rng.choice(n, 2, replace=False))
            d1 = int(rng.integers(1, 366))
            d2 = int(rng.integers(d1, 366))
            if rng.random() < 0.3:
                d1, d2 = 1, 365
            fc.append(dict(a=a, b=b, beg=d1, end=d2, mw=int(rng.integers(1, 30))))
    od = []
    if owners is None:
        owners = rng.random() < 0.3
    if owners and n > 1:
        for u in rng.choice(len(units), min(len(units), int(rng.integers(1, 4))), replace=False):
            w = rng.integers(0, 5, n).astype(float) * 5
            w[units[u]["loc"]] = 0
            if w.sum() > 100:
                w = np.floor(w * 100 / w.sum())
            w[units[u]["loc"]] = 100 - w.sum()
            od.append(dict(u=int(u), pct=[float(x) for x in w]))
    # the seed differs from system to system, without taking part in the sequence of rng
    own = np.random.default_rng([n, sn, *(int(a["peak"]) for a in areas)])
    m = dict(SEED=int(own.choice([345237, 123456, int(own.integers(2**30)) * 2 + 1, int(own.integers(500)) * 2 + 1], p=[0.2, 0.1, 0.6, 0.1])), LS=int(rng.integers(2)), WK=(13, 26, 39), WHERE=int(rng.integers(1, 3)),
             WHEN=int(rng.integers(1, 3)), KVS=int(rng.integers(1, 3)), KVT=int(rng.integers(1, 3)),
             KVL=int(rng.integers(1, n + 1)), CVT=0.025, FIN=2, STEP=1, FREQ=1, MAXE=1000, II=0, IJ=0,
             IR=1, IN=5, D=1, M=1)
    if rng.random() < 0.5:
        w = np.sort(rng.choice(np.arange(2, 51), 3, replace=False))
        m["WK"] = tuple(int(x) for x in w)
    m.update(mc or {})
    shapes = [load_shape(rng) for _ in range(n)]
    return dict(areas=areas, units=units, lines=tl, fc=fc, od=od, mc=m, shapes=shapes,
                title=["SYNTHETIC SYSTEM", "%d AREAS" % n])


def tweak(case, rng, what):
    """push a case towards the situations a property is about"""
    un, ar, tl = case["units"], case["areas"], case["lines"]
    n = len(ar)
    m = case["mc"]
    # choices that take no part in the sequence of rng
    own = np.random.default_rng([n, len(un), len(tl), *(int(a["peak"]) for a in ar)])
    for w in what:
        if w == "season":  # four clearly different ratings
            for u in un:
                c = u["cap"][0]
                u["cap"] = [int(x) for x in rng.permutation([c, int(c * 0.9) - 1, int(c * 0.8) - 2, int(c * 0.7) - 3])]
        elif w == "fractions":  # ratings with decimals
            for u in un:
                if rng.random() < 0.7:
                    u["cap"] = [float(np.round(x - rng.choice([0, 0.5, 0.25, 0.1, 0.75, 0.01]), 2)) for x in u["cap"]]
        elif w == "decimals":  # loads, contracts, limits and lines with decimals
            def dec(x):
                return float(np.round(x + rng.choice([0, 0.5, 0.25, 0.1, 0.75, 0.01, 0.499]), 3))

            for a in ar:
                a["peak"] = dec(a["peak"])
                a["flow"] = dec(a["flow"]) if a["flow"] < 10000 else a["flow"]
            for c in case["fc"]:
                c["mw"] = dec(c["mw"])
            for t in tl:
                t["st"] = [(s[0], dec(s[1]), dec(s[2]), s[3]) for s in t["st"]]
        elif w == "weeks":  # season changes anywhere, also close together
            r = rng.random()
            if r < 0.3:
                a = int(rng.integers(1, 50))
                m["WK"] = (a, a + 1, a + 2)
            elif r < 0.5:
                m["WK"] = (1, 2, 51)
            elif r < 0.6:
                m["WK"] = (50, 51, 52)
            elif r < 0.75:  # seasons without any week
                a, b = sorted(int(x) for x in rng.integers(1, 53, 2))
                m["WK"] = [(a, a, b), (a, b, b), (a, a, a), (a, 52, 52)][int(rng.integers(4))]
            else:
                m["WK"] = tuple(int(x) for x in np.sort(rng.choice(np.arange(1, 52), 3, replace=False)))
        elif w == "outages":  # many predetermined outages, also at both ends of the year
            for u in un:
                r = rng.random()
                if r < 0.15:
                    continue
                u["pa"] = 1
                u["b1"], u["d1"] = int(rng.integers(1, 53)), int(rng.integers(1, 8))
                if rng.random() < 0.2:
                    u["b1"] = 1
                if rng.random() < 0.2:
                    u["b1"], u["d1"] = 52, 1
                elif rng.random() < 0.1:
                    u["b1"], u["d1"] = 50, 6
                u["b2"], u["d2"] = 0, 0
                if rng.random() < 0.6:
                    u["b2"], u["d2"] = int(rng.integers(1, 53)), int(rng.integers(1, 5))
                    r = rng.random()
                    if r < 0.15:  # both outages overlap
                        u["b2"] = min(52, u["b1"] + int(rng.integers(0, u["d1"])))
                    elif r < 0.25:
                        u["b2"] = min(52, u["b1"] + u["d1"])
        elif w == "nomaint":
            for u in un:
                u.update(pa=0, b1=0, d1=0, b2=0, d2=0)
        elif w == "noauto":
            for u in un:
                if not u["pa"]:
                    u.update(d1=0, d2=0)
        elif w == "rates":  # all corners of the outage rates
            for u in un:
                f, d = [(0, 0), (1, 0), (0, 1), (0.5, 0.5), (0.3, 0.4), (0.05, 0), (0, 0.3), (0.25, 0.25)][int(rng.integers(8))]
                u.update(FOR=f, dfor=d, der=int(rng.choice([0, 10, 37, 50, 99, 100])))
        elif w == "linerates":
            for t in tl:
                if rng.random() < 0.2:
                    p = np.zeros(6)
                    p[int(rng.integers(6))] = 1
                else:
                    k = rng.integers(0, 20, 6) * (rng.random(6) < rng.choice([1, 0.5]))
                    k[int(rng.integers(6))] += 1
                    p = np.round(k / k.sum(), 4)
                    p[int(np.argmax(p))] += 1 - p.sum()
                t["st"] = [(s[0], s[1], s[2], float(round(x, 4))) for s, x in zip(t["st"], p)]
        elif w == "linestates":  # six clearly different states
            for t in tl:
                t["st"] = [(-float(rng.integers(1, 400)) / 2, float(rng.integers(2, 300)), float(rng.integers(2, 300)), s[3]) for s in t["st"]]
                if own.random() < 0.15:  # states without any or with the least capacity in a direction
                    k, d = int(own.integers(6)), int(own.integers(1, 3))
                    t["st"][k] = tuple(float(own.integers(2)) if x == d else v for x, v in enumerate(t["st"][k]))
        elif w == "contracts":
            case["fc"] = []
            if n > 1:
                for _ in range(int(rng.integers(2, 7))):
                    a, b = (int(x) for x in rng.choice(n, 2, replace=False))
                    d1 = int(rng.integers(1, 366))
                    d2 = int(rng.integers(d1, 366))
                    r = rng.random()
                    if r < 0.15:
                        d1 = d2
                    elif r < 0.3:
                        d1 = 1
                    elif r < 0.45:
                        d2 = 365
                    case["fc"].append(dict(a=a, b=b, beg=d1, end=d2, mw=int(rng.integers(1, 40))))
                c = case["fc"][0]
                case["fc"].append(dict(c, mw=7))  # the same areas, the same days
                case["fc"].append(dict(a=c["b"], b=c["a"], beg=c["beg"], end=c["end"], mw=5))
                used = {(c["a"], c["b"]) for c in case["fc"]}
                free = [(a, b) for a in range(n) for b in range(n) if a != b and (a, b) not in used]
                if free and own.random() < 0.25:  # a contract of no power
                    a, b = free[int(own.integers(len(free)))]
                    case["fc"].insert(0, dict(a=a, b=b, beg=100, end=200, mw=0))
        elif w == "manycontracts":  # up to all pairs of areas in both directions (60 at most)
            pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
            pairs = [pairs[int(k)] for k in rng.permutation(len(pairs))[:60]]
            case["fc"] = []
            for a, b in pairs + pairs[: int(rng.integers(0, 6))]:
                d1 = int(rng.integers(1, 366))
                d2 = int(rng.integers(d1, 366)) if rng.random() < 0.8 else d1
                case["fc"].append(dict(a=a, b=b, beg=d1, end=d2, mw=int(rng.integers(1, 40))))
        elif w == "rollpeaks":  # the pool peak of a day falls on any hour, often the first or the last
            d = np.array(case["shapes"])[0].size // 24
            sh = rng.integers(0, 24, d)
            r = rng.random(d)
            mx = np.mean([np.asarray(x, float).reshape(d, 24) / np.max(x) for x in case["shapes"]], axis=0).argmax(axis=1)
            sh = np.where(r < 0.35, -mx, np.where(r < 0.7, 23 - mx, sh))
            idx = ((np.arange(24)[None, :] - sh[:, None]) % 24) + 24 * np.arange(d)[:, None]
            case["shapes"] = [np.asarray(x)[idx.reshape(-1)] for x in case["shapes"]]
        elif w == "owners":
            case["od"] = []
            if n > 1:
                for u in rng.choice(len(un), min(len(un), int(rng.integers(2, 7))), replace=False):
                    x = rng.integers(0, 6, n).astype(float) * 5
                    r = rng.random()
                    x[un[u]["loc"]] = 0
                    if x.sum() > 100:
                        x *= 0.5
                    x[un[u]["loc"]] = 100 - x.sum()
                    if r < 0.2:  # owned by others only
                        x[:] = 0
                        x[(un[u]["loc"] + 1) % n] = 100
                    case["od"].append(dict(u=int(u), pct=[float(v) for v in x]))
        elif w == "shares":  # shares that do not add up
            for o in case["od"]:
                if rng.random() < 0.5:
                    o["pct"] = [float(v) for v in rng.integers(0, 60, n)]
        elif w == "lfu":
            for a in ar:
                a["lfu"] = float(rng.choice([0, 0.5, 1.5, 2.5, 3, 5, 8, 15, 30]))
            ar[int(rng.integers(n))]["lfu"] = 4.0
            if own.random() < 0.15:  # hardly any uncertainty anywhere
                for a in ar:
                    a["lfu"] = float(own.choice([0, 0.05, 0.1, 0.3, 0.49]))
                ar[int(own.integers(n))]["lfu"] = 0.2
        elif w == "big":  # systems of hundreds of gigawatts
            k = int(own.choice([500, 1000, 2000]))
            for u in un:
                u["cap"] = [x * k for x in u["cap"]]
            for a in ar:
                a["peak"] = a["peak"] * k
                a["flow"] = a["flow"] * k
            for t in tl:
                t["st"] = [(s[0], s[1] * k, s[2] * k, s[3]) for s in t["st"]]
            for c in case["fc"]:
                c["mw"] = c["mw"] * k
        elif w == "nolfu":
            for a in ar:
                a["lfu"] = 0.0
        else:
            raise ValueError(w)
    return case


def q(s):
    return "'%s'" % s


def write_case(case, path):
    os.makedirs(path, exist_ok=True)

    def put(name, lines):
        with open(os.path.join(path, name), "w") as f:
            f.write("\n".join(lines) + "\n")

    ar = case["areas"]
    nm = [q(a["name"]) for a in ar]
    put("ZZTC.csv", case["title"])
    m = case["mc"]
    put("ZZMC.csv", [
        "SEED,LS,END WK1,END WK2,END WK3,WHERE,WHEN,KVS,KVT,KVL,CVT,FIN,STEP,FREQ,MAXE,II,IJ,IR,IN,D,M",
        ",".join(str(x) for x in [m["SEED"], m["LS"], *m["WK"], m["WHERE"], m["WHEN"], m["KVS"],
                                  m["KVT"], m["KVL"], m["CVT"], m["FIN"], m["STEP"], m["FREQ"],
                                  m["MAXE"], m["II"], m["IJ"], m["IR"], m["IN"], m["D"], m["M"]])])
    put("ZZLD.csv", ["SN,AREA NAME,PEAK (MW),LFU,OUTAGE BEG WK,OUTAGE END WK,FORBIDDEN BEG WK,"
                     "FORBIDDEN END WK,SUM OF FLOWS CONSTRAINT"] + [
        "%d,%s,%s,%s,%d,%d,%d,%d,%s" % (i + 1, nm[i], a["peak"], a["lfu"], *a["win"], *a["forb"], a["flow"])
        for i, a in enumerate(ar)])
    put("ZZUD.csv", ["SN,NAME,LOC,CAP1,CAP2,CAP3,CAP4,DFOR,FOR,DER,P/A,B1,D1,B2,D2"] + [
        "%d,%s,%s,%s,%s,%s,%s,%s,%s,%s,%d,%d,%d,%d,%d" % (
            i + 1, q(u["name"]), nm[u["loc"]], *u["cap"], u["dfor"], u["FOR"], u["der"], u["pa"],
            u["b1"], u["d1"], u["b2"], u["d2"]) for i, u in enumerate(case["units"])])
    put("ZZTD.csv", ["SN,LINE NUMBER,FROM AREA,TO AREA,META DATA"] + [
        '%d,%d,%s,%s,"%s"' % (i + 1, i + 1, nm[l["a"]], nm[l["b"]],
                              ",".join("%s,%s,%s,%s" % tuple(t) for t in l["st"]))
        for i, l in enumerate(case["lines"])])
    put("ZZFC.csv", ["SN,FROM AREA,TO AREA,BEG DAY,END DAY,MW"] + [
        "%d,%s,%s,%d,%d,%s" % (i + 1, nm[c["a"]], nm[c["b"]], c["beg"], c["end"], c["mw"])
        for i, c in enumerate(case["fc"])])
    put("ZZOD.csv", ["SN,UNIT NAME,PERCENT OWNED BY AREA"] + [
        '%d,%s,"%s"' % (i + 1, q(case["units"][o["u"]]["name"]), ",".join(str(x) for x in o["pct"]))
        for i, o in enumerate(case["od"])])
    put("ZZDD.csv", ["SN,LINE NUMBER,UNIT1,UNIT2,UNIT3,UNIT4,FORWARD,BACKWARD"])
    write_leei(case["shapes"], os.path.join(path, "LEEI"))


def write_leei(shapes, fname):
    """whole numbers in the columns of EEI files, or decimals"""
    out = []
    sh = np.asarray(shapes)
    whole = np.all(sh == np.floor(sh)) and sh.max() < 10**5
    row = (lambda x: "".join("%5d" % v for v in x)) if whole else (lambda x: " " + " ".join("%.6f" % v for v in x))
    for i, s in enumerate(shapes):
        out.append("AREA:A%d" % (i + 1))
        for d in range(365):
            x = s[24 * d: 24 * d + 24]
            out.append("%04d                " % (d + 1) + row(x[:12]))
            out.append(" " * 20 + row(x[12:]))
    with open(fname, "w") as f:
        f.write("\n".join(out) + "\n")
