"""the load of an area is its scaled load shape times the factor of the forecast tier"""
import numpy as np

from lib import gen, jobs as J, prep, rec
from lib.shadow import Model

RULE = ("a case is the load of one area in one hour and tier, in the prepared data and in the network solutions and "
        "recorded margins of whole runs; non-trivial with forecast uncertainty in some of the areas and peaks anywhere "
        "in the year")
REQUIRE = {"area_hours": 400000, "transm": 300, "loss": 300, "tier_loads": 2000, "files": 12, "decimal_files": 6, "large_files": 3}
TAGS = {"load", "decision"}


def shapes(job, out):
    """load files of every shape: annual maximum in any place, flat, zero, areas in any order"""
    rng = J.rng_of(job)
    xldnew = rec.fn("xldnew")
    for it in range(job["n"]):
        A = int(rng.integers(1, 13)) if rng.random() < 0.7 else 1
        sh = np.array([gen.load_shape(rng) for _ in range(A)])
        for a in range(A):
            r = rng.random()
            if r < 0.3:
                sh[a, [0, 8759, 4379, 12 * int(rng.integers(730)), 11 + 12 * int(rng.integers(730))][int(rng.integers(5))]] = 9999
            elif r < 0.4:
                sh[a] = int(rng.integers(1, 9999))
            elif r < 0.5:
                sh[a] = 0
            elif r < 0.6:
                sh[a] = rng.integers(0, 9999, 8760)
        unit = it % 2 == 1
        if unit:  # shapes in decimals, down to per unit
            sh = np.round(sh / rng.choice([9999.0, 12000.0, 40000.0, 100.0], A)[:, None], 6)
            out.count("decimal_files")
        elif it % 4 == 0:  # loads of five digits leave no blank between them
            sh = sh * rng.integers(1, 11, A)[:, None]
            out.count("large_files", int(sh.max() > 9999))
        peak = rng.integers(0, 20000, A).astype(float)
        gen.write_leei(sh, "LEEI")
        if rng.random() < 0.5:  # the areas of the file in another order
            blocks = open("LEEI").read().split("AREA:")[1:]
            order = rng.permutation(A)
            with open("LEEI", "w") as f:
                f.write("".join("AREA:" + blocks[i] for i in order))
        p = peak.copy()
        H = np.asarray(xldnew("LEEI", p), float)
        E = sh / np.maximum(sh.max(axis=1), 0.001)[:, None] * peak[:, None]
        if H.shape != E.shape or np.abs(H - E).max() > 1e-6:
            a, h = (int(x) for x in np.unravel_index(np.abs(H - E).argmax(), E.shape)) if H.shape == E.shape else (0, 0)
            out.violation("load-value", "area %d hour %d: load %r, shape %g of %g scaled to %g gives %r" % (
                a, h, H[a, h] if H.shape == E.shape else H.shape, sh[a, h], sh[a].max(), peak[a], E[a, h]))
            return
        for a in range(A):
            if sh[a].max() > 0:
                out.check(abs(H[a].max() - peak[a]) < 1e-6, "load-peak", "area %d peaks at %g, input %g" % (a, H[a].max(), peak[a]))
        out.check((p == peak).all(), "input-changed", "reading the loads changes the peaks")
        out.count("files")
        out.count("area_hours", H.size)
        out.case((A, float(sh.sum()), float(peak.sum())))


def tiers(job, out):
    """the load asked for in an hour and tier"""
    rng = J.rng_of(job)
    for it in range(job["n"]):
        case = gen.tweak(gen.random_case(rng, **job.get("case", {})), rng, job["tw"] + (["decimals"] if rng.random() < 0.3 else []))
        d = prep.prepare(case)
        m = Model(case)
        prep.loads(d, case, out, m)
        f = rec.fn("findld")
        for h in [0, 8759] + rng.integers(0, 8760, 60).tolist():
            for t in range(m.nf):
                g = np.asarray(f(t, h, d["HRLOAD"], d["FCTERR"]), float)
                e = m.load[:, h] * m.fac[:, t]
                out.count("tier_loads")
                if g.shape != e.shape or np.abs(g - e).max() > 1e-6:
                    out.violation("tier-load", "hour %d tier %d: load %s instead of %s" % (h, t + 1, g.tolist(), e.tolist()))
                    return
        out.case((job["s"], it))


def run(job, out):
    if job["k"] == "shapes":
        return shapes(job, out)
    if job["k"] == "tiers":
        return tiers(job, out)
    sh, T, c = J.shadow_run(job, out, TAGS)
    if T is not None and T.data is not None:
        prep.loads(T.data, c, out, sh.m)  # still the same after the run
    out.sample(case=J.describe(c), lfu=[a["lfu"] for a in c["areas"]])


def jobs(tier, rng):
    q = tier == "quick"
    r = [dict(k="shapes", s=s, n=8 if q else 60) for s in J.seeds(rng, 5 if q else 16)]
    r += [dict(k="tiers", s=s, n=6 if q else 60, tw=["lfu"]) for s in J.seeds(rng, 2 if q else 8)]
    r += [dict(k="tiers", s=s, n=6 if q else 60, tw=["nolfu"]) for s in J.seeds(rng, 1 if q else 4)]
    r += J.hourly(rng, 2 if q else 10, ["lfu"], years=1, n_area=3, units_per_area=4, stress=0.8)
    r += J.hourly(rng, 1 if q else 4, ["nolfu"], years=1, n_area=2, units_per_area=4, stress=0.9)
    r += J.daily(rng, 4 if q else 24, ["lfu"], years=3 if q else 8, n_area=3, units_per_area=4, stress=0.9, mc=dict(CVT=1e-9))
    return r
