"""Scenario generation, shrinking and bookkeeping (no library code is imported here)."""
import copy
import os

import ops
from ops import OPS, GROUP

NC = [None, 1, 2, 2, 3, 3, 4, 5, 7, 8]
NCH = [None, None, None, 1, 1, 2, 3, 4]
EXCS = ["ValueError", "MemoryError", "RuntimeError", "OSError", "KeyError", "StopIteration", "Unpicklable"]
NS = 10 ** 9

# property -> tier -> (runs, wall cap in seconds)
BUDGET = {p: {"quick": (16000, 150), "thorough": (400000, 3000)} for p in ["C%02d" % i for i in range(1, 20)]}
LEVEL = {p: "exploration" for p in BUDGET}
for _p in ("C06", "C07", "C08", "C15", "C16", "C18"):
    LEVEL[_p] = "fault_enumeration" if _p in () else "exploration"
REAL = ["tomopy Python package from /repo (unmodified)", "libtomo C libraries built from /repo with memory-access hooks",
        "concurrent.futures.ThreadPoolExecutor and Future (standard library code on simulated locks and threads)",
        "numpy, scipy, pywt, scikit-image, tifffile", "fork, shared memory"]
STUB = ["multiprocessing.Pool/Manager/Process and ProcessPoolExecutor (simulated: real forked processes under the simulator's scheduler)",
        "OpenMP runtime", "thread scheduling, locks, clocks, sleep", "heap of the C libraries (guarded, garbage-filled)",
        "numexpr thread pool (expressions evaluated on one thread)", "FFTW planner guarded by a concurrency detector, real FFTs",
        "MPI, astra, lprec (stubs)", "file writes (faulty disk layer over real files)"]

RULE = {p: "a run counts when its main session completed at least one library call and the schedule had at least one context "
           "switch, an injected fault that fired, or more than one unit of work; distinct by (schedule hash, scenario)" for p in BUDGET}


def sched(r, line=None, slow=0.06):
    k = r.random()
    strat = 0 if k < 0.7 else (1 if k < 0.9 else 2)
    s = {"seed": r.randrange(1, 1 << 31), "strat": strat, "gs": r.choice([1, 2, 4, 10, 40]), "gl": r.choice([0, 2, 5, 20, 100]),
         "gm": r.choice([0, 50, 300, 2000, 10000]), "line": 1, "tick": r.choice([200, 1000, 5000])}
    if strat == 1:
        # priority schedule: number of change points
        s["gs"], s["gl"], s["gm"] = r.choice([1, 2, 4]), r.choice([0, 5]), r.choice([0, 300])
    if r.random() < 0.1:
        s["line"] = 2
    elif r.random() < slow:
        # some lines of the library always take long
        s["slow"] = [r.choice([15, 40, 40, 100, 300]), r.choice([0.001, 0.02, 0.3])]
    if line is not None:
        s["line"] = line
    return s


def base(r, slow=0.06):
    sc = {"cpu": r.choice([1, 2, 3, 4, 4, 6, 8]), "env": {}, "garbage": r.choice([1, 1, 2, 3]), "sched": sched(r, slow=slow), "faults": [],
          "ops": []}
    if r.random() < 0.12:
        sc["env"]["TOMOPY_PYTHON_THREADS"] = r.choice(["1", "2", "3", "4"])
    return sc


def pick(r, names):
    while True:
        n = r.choice(names)
        if r.random() < 1.0 / OPS[n].heavy:
            return n


def opcall(r, names, nc=None, multi=False):
    n = pick(r, names)
    op = OPS[n]
    o = {"op": n, "p": op.gen(r), "nc": r.choice(NC) if nc is None else nc, "nch": r.choice(NCH) if op.chunked else None}
    if multi and o["nc"] in (None, 1):
        o["nc"] = r.choice([2, 3, 4, 5])
    return o


def tiny(r, sc):
    """extents of a few pixels; a call may refuse them, but must not mistreat them"""
    if r.random() > 0.12:
        return sc
    sc["tiny"] = True
    for o in sc["ops"]:
        p = o["p"]
        if o["op"] in ("remove_stripe_ti", "find_center", "vector", "project23"):       # (conjugate gradients that do not end; data made for a size)
            continue
        low = 2 if o["op"].startswith("recon_") else 1
        if o["op"] == "remove_ring":
            p["off"] = None
        for k in r.sample(["nang", "dx", "dy", "ox", "oz", "shape"], r.choice([1, 1, 2, 6])):
            if isinstance(p.get(k), int):
                p[k] = max(low, r.choice([1, 1, 2, 3, 4])) if k == "dx" else r.choice([1, 1, 2, 3, 4])
        if "shape" in p:
            for k in range(3):
                if r.random() < 0.4:
                    p["shape"][k] = r.choice([1, 1, 2, 3, 4])
        if "block" in p:
            p["block"] = min(p["block"], p["nang"])
        if p.get("grid"):
            p["grid"] = 0
        if "air" in p:
            p["air"] = min(p["air"], p["dx"])
        if p.get("ox") and "oz" in p and r.random() < 0.5:
            p["oz"] = p["ox"]
    return sc


def big(r, sc, p=0.06):
    """one extent (or the machine) larger than the others"""
    if r.random() > p * BIG or sc.get("tiny"):
        return sc
    sc["big"] = True
    if r.random() < 0.3:
        sc["cpu"] = r.choice([12, 16, 32])
    for o in sc["ops"]:
        p = o["p"]
        if o["op"] in ("remove_stripe_ti", "find_center", "vector", "project23"):
            continue
        if sc["cpu"] > 8 and r.random() < 0.5:
            o["nc"] = r.choice([9, 12, 16, None])
        k = r.choice(["n", "n", "n", "nang", "dx"])
        if "shape" in p:
            a = r.randrange(3)
            p["shape"] = list(p["shape"])
            p["shape"][a] = r.choice([17, 33, 40])
        elif isinstance(p.get(k), int):
            p[k] = r.choice([33, 40, 64, 65, 130])
            if k != "n" and "n" in p:
                p["n"] = min(p["n"], 3)
            elif o["nch"]:
                o["nch"] = r.choice([o["nch"], 16, 32, 33, 100])
    return sc


KEEP = ("n", "nang", "dx", "ox", "oz", "dy", "shape", "gx", "gy", "grid", "block", "regdata", "init", "sq", "dflt", "so", "xdt", "dt", "out", "pad")


BIG = float(os.environ.get("SIM_BIG", "1"))


def variant(r, o):
    """the same call with something else about it: other numbers of the same shape, other options, another size, or other cores"""
    op = OPS[o["op"]]
    v = copy.deepcopy(o)
    v.pop("bad", None)
    q = op.gen(r)
    k = r.random()
    if k < 0.3:
        v["p"]["ds"] = q["ds"]
    elif k < 0.75:
        ks = [x for x in q if x in v["p"] and x not in KEEP and x != "ds"]
        for x in r.sample(ks, min(len(ks), r.choice([1, 1, 2, 5]))):
            v["p"][x] = q[x]
        if r.random() < 0.5:
            v["p"]["ds"] = q["ds"]
    else:
        v["p"] = q
    if r.random() < 0.3:
        v["nc"] = r.choice(NC)
    return v


def stalls(r, kinds, p=0.2):
    out = []
    if r.random() < p:
        for _ in range(r.choice([1, 1, 2])):
            out.append({"t": "point", "kind": r.choice(kinds), "ord": r.choice([-1, 0, 1, 2]), "cls": r.choice(["any", "sync", "line"]),
                        "nth": r.choice([1, 2, 3, 5, 10, 30, 100]), "act": "stall", "arg": r.choice([1, 50, 1500, 30000]) * 1000000})
    return out


def g_units(names, kinds):
    def f(r, tier, i):
        sc = base(r)
        sc["ops"] = [opcall(r, names)]
        sc["faults"] = stalls(r, kinds)
        return big(r, tiny(r, sc))
    return f


RECONS = GROUP["recon"] + ["recon_callable"]
ALLOPS = list(OPS)
PROC = GROUP["proc"]
FILT = GROUP["filt"]
OMP = GROUP["omp"]


def g_c04(r, tier, i):
    sc = base(r)
    o = opcall(r, OMP)
    sc["ops"] = [o]
    if sc["sched"]["gm"] == 0 and r.random() < 0.7:
        sc["sched"]["gm"] = r.choice([20, 100, 1000])
    sc["faults"] = stalls(r, ["omp"], 0.1)
    return big(r, tiny(r, sc))


def g_c05(r, tier, i):
    sc = base(r)
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 25, 40])
    many = r.random() < 0.05 * BIG
    if many:
        n = r.choice([50, 101, 128, 150, 257])
        sc["cpu"] = r.choice([sc["cpu"], 12, 16, 32])
    axis = r.choice([0, 1, 2])
    shape = [r.choice([1, 2, 3]) for _ in range(3)]
    shape[axis] = n
    na = r.choice([1, 1, 2, 3])
    job = {"axis": axis, "shape": shape, "na": na, "dt": [r.choice(["float32", "float32", "float64", "int32"]) for _ in range(na)],
           "nc": r.choice(NC), "nch": r.choice([None, None, 0, 1, 1, 2, 3, 4, 20]),
           "mode": r.choice(["return", "return", "inplace", "list1"]), "out": r.choice(["none", "none", "new", "reshaped", "arr0"]),
           "args": r.choice([[], [3.0], [3.0, 5.0]]), "kw": r.random() < 0.4, "outdt": r.choice([None, "float64"]),
           "host": [], "hostmode": r.choice(["flag", "first", "pid"]), "extra": r.choice([0, 0, 1, 2]), "shared": r.random() < 0.15,
           "repeat": r.choice([1, 1, 1, 2])}
    if many:
        job["nc"], job["nch"] = r.choice([job["nc"], 9, 12, 16]), r.choice([job["nch"], 7, 16, 32, 100])
    if r.random() < 0.4:
        job["host"] = sorted(r.sample(range(n), r.randint(1, min(n, 3))))
    if job["mode"] == "inplace":
        # results appear in the last array, which may also be given as output
        job["out"] = r.choice(["none", "last"])
    job["neg"] = r.random() < 0.2
    job["layout"] = r.choice([None, None, None, "F", "strided", "readonly", "reversed"])
    if job["nch"] == 0 and job["mode"] == "list1":
        job["mode"] = "return"
    sc["job"] = job
    sc["ops"] = [{"op": "distribute_jobs", "nc": job["nc"], "nch": job["nch"]}]
    sc["faults"] = stalls(r, ["proc"])
    return sc


def g_c06(r, tier, i):
    sc = base(r)
    k = r.random()
    if k < 0.4:
        o = opcall(r, GROUP["recon"] + ["recon_callable"] + FILT + FILT, multi=r.random() < 0.9)
        kind = "thread"
    elif k < 0.8:
        o = opcall(r, PROC + ["find_center_vo"], multi=r.random() < 0.9)
        kind = "proc"
    elif k < 0.95:
        o = opcall(r, ["enhance_projs", "recon_accel", "detector_drift"], multi=True)
        kind = "proc"
    else:
        o = opcall(r, ["minus_log", "normalize"])
        kind = "eval"
    sc["ops"] = [o]
    if sc["cpu"] < 2:
        sc["cpu"] = 3
    if kind != "eval" and not o["op"].startswith("detector"):
        big(r, sc)
    sc["sched"]["line"] = max(1, sc["sched"]["line"])
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        if kind == "eval":
            sc["faults"] = [{"t": "eval", "n": r.choice([0, 0, 1, 2])}]
            break
        if kind == "thread" and r.random() < 0.6:
            sc["faults"].append({"t": "task", "n": r.choice([0, 0, 1, 1, 2, 3, 4, 5]), "when": r.choice(["before", "after"]),
                                 "exc": r.choice(EXCS)})
        else:
            sc["faults"].append({"t": "point", "kind": kind, "ord": r.choice([-1, 0, 1, 2, 3]), "cls": "line",
                                 "nth": r.choice([1, 2, 3, 4, 6, 8, 12, 16, 20, 30, 45, 60]), "act": "raise", "exc": r.choice(EXCS)})
    if r.random() < 0.12 and kind != "eval":
        sc["faults"] = [{"t": "sys", "n": r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8])}]
    if r.random() < 0.08 and kind == "proc":
        sc["faults"].append({"t": "eval", "n": 0})
    return sc


def g_c07(r, tier, i):
    sc = base(r)
    if sc["cpu"] < 2:
        sc["cpu"] = 3
    names = PROC + ["find_center_vo", "enhance_projs", "recon_accel", "recon_accel", "detector_drift"]
    o = opcall(r, names, multi=True)
    sc["ops"] = [o]
    if not o["op"].startswith("detector"):
        big(r, sc)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        sc["faults"].append({"t": "point", "kind": "proc", "ord": r.choice([-1, 0, 1, 2, 3]), "cls": r.choice(["any", "any", "sync", "line"]),
                             "nth": r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 13, 17, 22, 30, 45, 70]), "act": "kill",
                             "arg": r.choice([-9, -9, -11, -6, 0, 0, 1, 3])})
    if r.random() < 0.1:
        sc["faults"].append({"t": "man", "n": r.choice([1, 2, 3, 5, 8])})
    return sc


def _anyfault(r, o, main=False):
    """a fault for one call; main: also exceptions between any two lines of the caller (these can hit
    clean-up code, so they are only used where nothing is required of the state left behind)"""
    k = OPS[o["op"]].kind
    f = []
    if k in ("thread", "proc", "ppe") and r.random() < 0.12:
        return [{"t": "sys", "n": r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6])}]
    x = r.random()
    if not main:
        x *= 0.74 if k == "thread" else 0.64 if k in ("proc", "ppe") else 0.49
    if k == "thread":
        if x < 0.5:
            f.append({"t": "task", "n": r.choice([0, 1, 2]), "when": r.choice(["before", "after"]), "exc": r.choice(EXCS)})
        elif x < 0.75:
            f.append({"t": "point", "kind": "thread", "ord": r.choice([-1, 0, 1]), "cls": "line", "nth": r.choice([1, 2, 4, 8, 15]),
                      "act": "raise", "exc": r.choice(EXCS)})
        else:
            f.append({"t": "point", "kind": "main", "ord": 0, "cls": "line", "nth": r.randint(1, 90), "act": "raise", "exc": r.choice(EXCS)})
    elif k in ("proc", "ppe"):
        if x < 0.35:
            f.append({"t": "point", "kind": "proc", "ord": r.choice([-1, 0, 1]), "cls": "any", "nth": r.choice([1, 2, 4, 8, 15, 25]),
                      "act": "kill", "arg": r.choice([-9, 0, 1])})
        elif x < 0.65:
            f.append({"t": "point", "kind": "proc", "ord": r.choice([-1, 0, 1]), "cls": "line", "nth": r.choice([1, 2, 4, 8, 15, 25]),
                      "act": "raise", "exc": r.choice(EXCS)})
        elif x < 0.9:
            f.append({"t": "point", "kind": "main", "ord": 0, "cls": "line", "nth": r.randint(1, 130), "act": "raise", "exc": r.choice(EXCS)})
        else:
            f.append({"t": "man", "n": r.choice([1, 2, 4])})
    else:
        if x < 0.5:
            f.append({"t": "eval", "n": r.choice([0, 1])})
        else:
            f.append({"t": "point", "kind": "main", "ord": 0, "cls": "line", "nth": r.randint(1, 60), "act": "raise", "exc": r.choice(EXCS)})
    return f


def g_c08(r, tier, i):
    sc = base(r)
    if r.random() < 0.3:
        sc["env"]["TOMOPY_PYTHON_THREADS"] = r.choice(["1", "2", "5"])
    sc["ne"] = r.choice([1, 2, 3, 7, 8])
    names = ALLOPS + ["minus_log", "normalize", "pointwise"] * 2
    for _ in range(r.choice([1, 1, 2])):
        sc["ops"].append(opcall(r, names, multi=r.random() < 0.7))
    if r.random() < 0.15:
        sc["ops"][0]["bad"] = r.choice(BAD)
    elif r.random() < 0.65:
        sc["faults"] = _anyfault(r, sc["ops"][0])
    for o in sc["ops"][1:]:
        _user(r, o)
    return big(r, sc, 0.04)


def _user(r, o):
    """the user may change the settings between calls"""
    if r.random() < 0.5:
        o["limit"] = r.choice([None, "1", "2", "3", "4"])
    if r.random() < 0.3:
        o["ne"] = r.choice([1, 2, 3, 5, 8])
    if r.random() < 0.2:
        o["omp"] = [r.choice([1, 2, 3, 5]), r.random() < 0.5]


BAD = ["alg", "kwarg", "ndim", "shape", "ncore0"]


def g_c09(r, tier, i):
    sc = base(r)
    names = [n for n in ALLOPS if n not in ("inpainter_random", "detector_drift")]
    k = r.random()
    n = r.choice([2, 2, 3, 4, 5])
    pool = names
    if k < 0.4:
        pool = GROUP["recon"]
    elif k < 0.6:
        pool = PROC
    related = r.random() < 0.6
    for _ in range(n):
        if related and sc["ops"] and r.random() < 0.75:
            sc["ops"].append(variant(r, r.choice(sc["ops"])))
        else:
            sc["ops"].append(opcall(r, pool))
    for o in sc["ops"][:-1]:
        if r.random() < 0.2:
            o["bad"] = r.choice(BAD)
    if r.random() < 0.2:
        for o in sc["ops"]:
            _user(r, o)
    sc["scribble"] = r.random() < 0.3
    if r.random() < 0.3:
        # the same call again, after the others
        sc["ops"].append(copy.deepcopy(sc["ops"][0]))
        sc["ops"][-1].pop("bad", None)
        sc["ops"][-1]["same"] = 0
        if r.random() < 0.4:
            sc["ops"][-1]["refill"] = True
    if r.random() < 0.4:
        j = r.randrange(len(sc["ops"]) - 1)
        sc["faults"] = _anyfault(r, sc["ops"][j])
        sc["fault_at"] = j
    return sc


def g_c10(r, tier, i):
    sc = base(r, 0.35)
    names = [n for n in ALLOPS if n not in ("inpainter_random", "detector_drift")]
    names.remove("misc_random")
    pools = [names, GROUP["recon"], PROC, FILT, OMP, ["recon_gridrec", "recon_fbp"], ["minus_log", "normalize", "pointwise"]]
    pool = r.choice([pools[0], pools[0], pools[0]] + pools)
    if r.random() < 0.3:
        sc["env"]["TOMOPY_PYTHON_THREADS"] = r.choice(["1", "2", "4"])
    sc["ne"] = r.choice([1, 2, 3, 7, 8])
    for _ in range(r.choice([2, 2, 2, 3, 4])):
        o = opcall(r, pool)
        o["times"] = r.choice([1, 1, 1, 2])
        sc["ops"].append(o)
    if r.random() < 0.3:
        for o in sc["ops"]:
            o["op"], o["p"] = sc["ops"][0]["op"], dict(sc["ops"][0]["p"], ds=o["p"]["ds"])
            if o is not sc["ops"][0] and r.random() < 0.5:
                o["p"] = variant(r, sc["ops"][0])["p"]
            if not OPS[o["op"]].chunked:
                o["nch"] = None
    if r.random() < 0.15:
        sc["ops"][0]["bad"] = r.choice(BAD)
    sc["faults"] = stalls(r, ["thread", "thread", "proc"], 0.3)
    return sc


def g_c11(r, tier, i):
    if r.random() < 0.05:
        # reconstruction with an external toolbox
        sc = g_c18(r, tier, i)
        g = sc["gpu"]
        g.update(fail=None, cfail=None, ufo_grid=0, cpu=r.random() < 0.5)
        return sc
    sc = base(r)
    names = [n for n in ALLOPS if n not in ("detector_drift",)]
    sc["ops"] = [opcall(r, names)]
    sc["layout"] = r.choice(["F", "strided", "reversed", "readonly", "transposed", "shared", "sharedview", "plain", "offset", "f64", "swapped",
                             "subclass"])
    sc["lseed"] = r.randrange(1000)
    if r.random() < 0.3:
        sc["faults"] = _anyfault(r, sc["ops"][0], main=True)
    return sc


def g_c12(r, tier, i):
    sc = base(r)
    names = GROUP["recon"] + ["recon_gridrec"] * 3 + OMP + ["remove_ring", "remove_ring", "project", "project23", "vector", "find_center"]
    if r.random() < 0.3:
        names = ["remove_stripe_sf", "remove_stripe_sf", "normalize_bg", "project"] + PROC
    k = r.choice([1, 1, 1, 2, 3])
    for _ in range(k):
        sc["ops"].append(opcall(r, names))
    sc["conc"] = k > 1 and r.random() < 0.6
    if k == 1 and sc["ops"][0]["op"] != "remove_stripe_ti" and r.random() < float(os.environ.get("SIM_MISFIT", "0.25")):
        if r.random() < 0.5:
            sc["ops"] = [opcall(r, GROUP["recon"] + ["vector", "project23", "project"] * 4 + ["inpainter_mean", "inpainter_random", "remove_ring"])]
        # arrays that do not belong together, wild values: the call may refuse them
        sc["misfit"] = [r.choice(["size", "size", "value", "param"]), r.random(), r.random(), r.choice([-1, -1, -2, "half", 1, 2, "double"]),
                        r.choice(["nan", "inf", "-inf", -1e9, 1e9, -1, 1e4])]
        return sc
    return big(r, tiny(r, sc))


def g_c13(r, tier, i):
    sc = base(r, 0)
    names = [n for n in ALLOPS if n not in ("find_center_pc", "find_center", "morph", "vector", "project23", "misc", "misc_random", "align")]
    sc["ops"] = [opcall(r, names)]
    o = sc["ops"][0]
    if r.random() < 0.5:
        o["nc"] = r.choice([1, 2, 3])
    if "n" in o["p"] and r.random() < 0.5:
        o["p"]["n"] = r.choice([6, 8, 9])
    sc["slow"] = r.random() < 0.6
    if r.random() < 0.3:
        sc["env"]["TOMOPY_PYTHON_THREADS"] = r.choice(["1", "2", "3"])
    # calls made before, and the thread that makes this one
    if r.random() < 0.4:
        q = copy.deepcopy(o)
        q["nc"] = r.choice([o["nc"], o["nc"], 1, 2, 4])
        sc["prior"] = [q]
        if r.random() < 0.3:
            # a call that failed
            sc["faults"] = _anyfault(r, q)
            q["armed"] = True
        elif r.random() < 0.2:
            q["bad"] = r.choice(BAD)
        if r.random() < 0.3:
            sc["prior"].append(opcall(r, names))
        for q in sc["prior"]:
            _user(r, q)
    sc["thread"] = r.random() < 0.3
    if not sc.get("prior"):
        big(r, sc)
    return sc


def g_c14(r, tier, i):
    sc = base(r)
    sc["ops"] = [opcall(r, ["enhance_projs", "enhance_projs", "recon_accel", "recon_accel", "detector_drift"])]
    sc["faults"] = stalls(r, ["proc"], 0.4)
    return sc


def g_c15(r, tier, i):
    sc = base(r, 0)
    names = GROUP["recon"] + PROC * 2 + FILT + ["enhance_projs", "recon_accel", "find_center_vo"]
    if sc["cpu"] < 2:
        sc["cpu"] = 3
    sc["ops"] = [opcall(r, names, multi=r.random() < 0.8), opcall(r, names)]
    sc["faults"] = [{"t": "point", "kind": "main", "ord": 0, "cls": "any", "nth": r.choice([r.randint(1, 40), r.randint(1, 300), r.randint(1, 150)]),
                     "act": "intr"}]
    if r.random() < 0.4 and sc["ops"][0]["op"] not in ("enhance_projs", "recon_accel"):
        # a piece that takes minutes: its worker would still be busy long after the interrupt
        sc["faults"].append({"t": "point", "kind": "proc", "ord": r.choice([-1, 1, 2, 3]), "cls": r.choice(["any", "line", "line"]),
                             "nth": r.choice([1, 2, 3, 5, 10, 30, 100]), "act": "stall", "arg": 200 * 1000000000})
    return sc


def g_c16(r, tier, i):
    sc = base(r, 0.2)
    k = r.random()
    sc["kind"] = "write_tiff" if k < 0.45 else ("write_center" if k < 0.7 else "writers")
    sc["w"] = {"ds": r.randrange(1 << 20), "dtype": r.choice([None, "float32", "uint16", "uint8", "float64"]), "digit": r.choice([None, 0, 7, 123]),
               "ext": r.choice(["", ".tif", ".tiff"]), "shape": r.choice([[5, 6], [1, 9], [3, 4, 5], [20, 30]]), "ow": r.random() < 0.4,
               "n": r.choice([1, 2, 3, 4]), "prev": r.random() < 0.5, "nthr": r.choice([2, 2, 3, 4]), "depth": r.choice([1, 2, 3]),
               "exist": r.choice([None, None, "image", "bigger", "empty", "garbage", "torn"])}
    if r.random() < 0.55:
        sc["disk"] = {"faults": [{"at": r.choice([0, 0, 1, 2, 3, 5, 8, 13, 20, 40]), "what": r.choice(["eio", "enospc", "short", "short", "open"])}]}
        if r.random() < 0.3:
            sc["disk"] = {"faults": [], "space": r.choice([0, 10, 100, 200, 400, 1000, 3000, 9000])}
    sc["ops"] = [{"op": sc["kind"], "nc": None, "nch": None}]
    return sc


def g_c17(r, tier, i):
    sc = base(r, 0.2)
    sc["mpi"] = {"size": r.choice([0, 1, 2, 2, 3, 4, 5, 7]), "n": r.choice([1, 2, 3, 5, 7, 8, 12, 13, 20, 31]),
                 "nc": r.choice([None, 1, 2, 3, 5, 8]), "nch": r.choice([None, None, 0, 1, 2, 3, 5, 50]), "rounds": r.choice([1, 1, 2])}
    sc["ops"] = [{"op": "get_worker_ncore_slices", "nc": sc["mpi"]["nc"], "nch": sc["mpi"]["nch"]}]
    sc["faults"] = stalls(r, ["thread"], 0.4)
    return sc


def g_c18(r, tier, i):
    sc = base(r, 0.2)
    sc["gpu"] = {"lib": r.choice(["astra", "astra", "astra", "lprec", "lprec", "ufo"]), "n": r.choice([1, 2, 3, 4, 5, 6, 7]), "nang": r.choice([2, 3, 5]), "dx": r.choice([4, 6]),
                 "gpus": r.choice([[0], [0, 1], [0, 1], [2, 0, 1], [0, 1, 2, 3]]), "so": r.random() < 0.5, "ds": r.randrange(1 << 20),
                 "cen": r.choice(["scalar", "array", "array", "none"]), "fail": r.choice([None, None, 0, 1, 2, 3]), "post": r.random() < 0.6,
                 "default": r.random() < 0.15, "rounds": r.choice([1, 1, 2]), "lpm": r.choice(["fbp", "cg", "em"]), "cpu": r.random() < 0.15}
    g = sc["gpu"]
    g["cfail"] = r.choice([None] * 6 + [0, 1, 2, 3, 5, 8])
    g["ufo"], g["ufo_nc"], g["ufo_grid"] = r.choice(["fbp", "dfi"]), r.choice([1, 1, 2, 3]), r.choice([0] * 5 + [2])
    g["extra"] = r.random() < 0.5
    if g["lib"] == "ufo":
        g["fail"] = None
    sc["ops"] = [{"op": "recon_" + sc["gpu"]["lib"], "nc": 1, "nch": None}]
    sc["faults"] = stalls(r, ["thread"], 0.3)
    return sc


def g_c19(r, tier, i):
    sc = base(r, 0.2)
    n = r.choice([1, 1, 2, 3, 3])
    for _ in range(n):
        if sc["ops"] and r.random() < 0.7:
            sc["ops"].append(variant(r, sc["ops"][0]))
        else:
            sc["ops"].append(opcall(r, ["find_center_vo", "find_center_vo", "find_center_vo", "find_center", "find_center_pc"]))
    sc["conc"] = n > 1 and r.random() < 0.6
    if n == 1 and r.random() < 0.35:
        sc["cpu"] = max(2, sc["cpu"])
        sc["ops"][0]["nc"] = r.choice([2, 3])
        sc["faults"] = [{"t": "point", "kind": "proc", "ord": r.choice([-1, 0, 1]), "cls": "line", "nth": r.choice([1, 2, 3, 5, 8, 12, 20]),
                         "act": r.choice(["raise", "kill"]), "arg": r.choice([-9, 1]), "exc": "ValueError"}]
    elif r.random() < 0.3:
        sc["faults"] = stalls(r, ["proc", "thread"], 1.0)
    if n == 1 and sc["ops"][0]["op"] == "find_center_vo" and r.random() < (0.01 if tier == "thorough" else 0.004):
        # more than four million pixels: the coarse search works on reduced data
        sc["ops"][0]["p"].update(n=1, large=r.choice([[64, 62700], [600, 6700]]), rng=2, srad=1, step=0.5)
        sc["sched"]["line"] = 0
        sc["cpu"] = min(sc["cpu"], 4)
    return sc


GEN = {"C01": g_units(RECONS, ["thread"]), "C02": g_units(PROC, ["proc"]), "C03": g_units(FILT, ["thread"]), "C04": g_c04,
       "C05": g_c05, "C06": g_c06, "C07": g_c07, "C08": g_c08, "C09": g_c09, "C10": g_c10, "C11": g_c11, "C12": g_c12,
       "C13": g_c13, "C14": g_c14, "C15": g_c15, "C16": g_c16, "C17": g_c17, "C18": g_c18, "C19": g_c19}


def make(prop, r, tier, i):
    sc = GEN[prop](r, tier, i)
    sc["cold"] = r.random() < 0.75
    return sc


def nontrivial(sc, r):
    s = r["stats"]
    return bool(s["switches"] or any(s[k] for k in ("f_kill", "f_stall", "f_raise", "f_intr")) or any(r["cn"].get(k) for k in ("taskfail", "iofail", "ki", "man", "sys"))
                or any((o.get("p") or {}).get("n", 0) > 1 for o in sc.get("ops", ())))


def matches(m, sc, r):
    """known finding: every given key must agree"""
    if "class" in m and r["cls"] != m["class"]:
        return False
    if "op" in m and m["op"] not in [o["op"] for o in sc.get("ops", ())]:
        return False
    if "contains" in m and m["contains"] not in r["msg"]:
        return False
    return True


# ------------------------------------------------------------------ shrinking
def _var(sc, f):
    c = copy.deepcopy(sc)
    if f(c) is False:
        return None
    return c if c != sc else None


def shrinks(sc):
    out = []

    def add(f):
        c = _var(sc, f)
        if c is not None:
            out.append(c)
    n = len(sc.get("ops", ()))
    if n > 1 and sc["prop"] not in ("C15",):
        for k in range(n):
            def f(c, k=k):
                if c.get("fault_at") is not None and k <= c["fault_at"]:
                    if k == c["fault_at"]:
                        return False
                    c["fault_at"] -= 1
                if any("same" in o for o in c["ops"]):
                    return False
                del c["ops"][k]
            add(f)
    for k in range(len(sc.get("faults", ()))):
        add(lambda c, k=k: c["faults"].pop(k) and None)
    add(lambda c: c.__setitem__("env", {}))
    for key in ("cold", "thread"):
        if sc.get(key):
            add(lambda c, key=key: c.__setitem__(key, False))
    for k in range(len(sc.get("prior", ()))):
        add(lambda c, k=k: c["prior"].pop(k) and None)
    add(lambda c: c["sched"].__setitem__("strat", 2))
    for v in range(sc["sched"]["line"]):
        add(lambda c, v=v: c["sched"].__setitem__("line", v))
    add(lambda c: c["sched"].__setitem__("gm", 0))
    add(lambda c: c["sched"].__setitem__("gl", 0))
    for v in range(min(2, sc["garbage"])):
        add(lambda c, v=v: c.__setitem__("garbage", v))
    for k in range(n):
        o = sc["ops"][k]
        if o.get("nc") not in (1, 2) and o.get("nc", 0) != 0:
            add(lambda c, k=k: c["ops"][k].__setitem__("nc", 2))
        if o.get("nc") != 1:
            add(lambda c, k=k: c["ops"][k].__setitem__("nc", 1))
        if o.get("nch") is not None:
            add(lambda c, k=k: c["ops"][k].__setitem__("nch", None))
        p = o.get("p") or {}
        for key, smaller in (("n", (1, 2, 3)), ("nang", (1, 2, 3)), ("dx", (5, 8)), ("iter", (1,)), ("block", (1,)), ("times", (1,))):
            for v in smaller:
                if isinstance(p.get(key), int) and p[key] > v and o["op"].startswith("recon"):
                    add(lambda c, k=k, key=key, v=v: c["ops"][k]["p"].__setitem__(key, v))
                    break
        if isinstance(p.get("n"), int) and p["n"] > 1 and not o["op"].startswith("recon"):
            add(lambda c, k=k: c["ops"][k]["p"].__setitem__("n", c["ops"][k]["p"]["n"] - 1))
        for key in ("init", "out", "cen"):
            if p.get(key) not in (False, "none", None):
                add(lambda c, k=k, key=key: c["ops"][k]["p"].__setitem__(key, "none" if key == "cen" else False))
        if o.get("times", 1) > 1:
            add(lambda c, k=k: c["ops"][k].__setitem__("times", 1))
    for grp in ("job", "mpi", "gpu", "w"):
        if grp in sc:
            for key, v in (("n", 1), ("n", 2), ("n", 3), ("rounds", 1), ("repeat", 1), ("extra", 0), ("args", []), ("kw", False), ("na", 1), ("host", []),
                           ("nthr", 2), ("depth", 1), ("nch", None), ("nc", 2)):
                if key in sc[grp] and sc[grp][key] != v and not (isinstance(v, int) and isinstance(sc[grp][key], int) and sc[grp][key] < v):
                    def f(c, grp=grp, key=key, v=v):
                        c[grp][key] = v
                        if key == "na":
                            c[grp]["dt"] = c[grp]["dt"][-1:]
                    add(f)
            if grp == "job" and sc["job"]["shape"][sc["job"]["axis"]] > 1:
                def f(c):
                    j = c["job"]
                    j["shape"][j["axis"]] -= 1
                    j["host"] = [h for h in j["host"] if h < j["shape"][j["axis"]]]
                add(f)
    for v in (1, 2, 3):
        if sc.get("cpu", 1) > v:
            add(lambda c, v=v: c.__setitem__("cpu", v))
    return out
