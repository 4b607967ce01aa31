"""check <PROP> [quick|thorough] | check replay FILE | check one PROP INDEX"""
import hashlib
import json
import os
import queue
import random
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
import build as simbuild       # noqa: E402
import gen                     # noqa: E402

NW = int(os.environ.get("SIM_WORKERS", "8"))


def worker_env(libdir):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("TOMOPY", "PYTHON", "OMP_", "MKL_", "NUMEXPR", "GOMP", "KMP", "LD_")):
            del e[k]
    e.update(SIM_LIBDIR=libdir, LD_LIBRARY_PATH=libdir, MKL_THREADING_LAYER="SEQUENTIAL", PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED=os.environ.get("SIM_HASHSEED", "0"), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             MKL_NUM_THREADS="1", MKL_DISABLE_FAST_MM="1", NUMEXPR_NUM_THREADS="1", NUMEXPR_MAX_THREADS="64", SIM_REPO=simbuild.REPO,
             TOMOPY_SIM="1", HOME="/tmp", MPLBACKEND="Agg")
    e["PYTHONPATH"] = os.path.join(simbuild.REPO, "source")
    return e


class Worker:
    def __init__(self, i, env):
        env = dict(env, SIM_CORE=str(i))
        self.p = subprocess.Popen([PY, os.path.join(HERE, "worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=env, cwd=HERE, start_new_session=True)

    def run(self, job):
        try:
            self.p.stdin.write((json.dumps(job) + "\n").encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = b""
        if not line:
            return {"r": "err", "msg": "worker process ended", "id": job["id"]}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


class Pool:
    def __init__(self, n, libdir):
        self.env = worker_env(libdir)
        self.ws = [Worker(i, self.env) for i in range(n)]

    def map(self, jobs, stop=None, cb=None):
        """jobs: iterable of job dicts; runs them on all workers; results by id"""
        it = iter(jobs)
        lock = threading.Lock()
        res = {}

        def loop(w):
            while True:
                with lock:
                    if stop and stop(res):
                        return
                    j = next(it, None)
                if j is None:
                    return
                r = w.run(j)
                with lock:
                    res[j["id"]] = r
                    if cb:
                        cb(j, r)
        ts = [threading.Thread(target=loop, args=(w,)) for w in self.ws]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return res

    def close(self):
        for w in self.ws:
            w.close()


def scenario(prop, seed, i, tier):
    h = hashlib.sha256(("%s/%d/%d" % (prop, seed, i)).encode()).digest()
    r = random.Random(int.from_bytes(h[:8], "big"))
    sc = gen.make(prop, r, tier, i)
    sc["prop"] = prop
    sc["idx"] = i
    return sc


def is_viol(r):
    return r["r"] == "viol"


def same(r, cls):
    return r["r"] == "viol" and r["cls"] == cls


# ------------------------------------------------------------------ minimisation
def minimise(pool, sc, cls, budget):
    t0 = time.time()
    runs = 0
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        cands = list(gen.shrinks(sc))
        k = 0
        while k < len(cands) and time.time() - t0 < budget:
            batch = cands[k:k + len(pool.ws)]
            k += len(batch)
            res = pool.map([{"id": n, "sc": c} for n, c in enumerate(batch)])
            runs += len(batch)
            hit = [n for n in sorted(res) if same(res[n], cls)]
            if hit:
                sc = batch[hit[0]]
                improved = True
                break
    return sc, runs


def ddmin(pool, sc, trace, cls, budget):
    """drop preemptive switches from an explicit schedule"""
    t0 = time.time()
    runs = 0
    cur = trace
    pre = [i for i, t in enumerate(cur) if t[2]]
    n = 8
    while pre and time.time() - t0 < budget:
        size = max(1, (len(pre) + n - 1) // n)
        parts = [pre[i:i + size] for i in range(0, len(pre), size)]
        hit = None
        for b in range(0, len(parts), len(pool.ws)):
            jobs = []
            for k, part in enumerate(parts[b:b + len(pool.ws)]):
                s = set(part)
                jobs.append({"id": b + k, "sc": sc, "trace": [t for i, t in enumerate(cur) if i not in s], "want_trace": 1})
            res = pool.map(jobs)
            runs += len(jobs)
            ok = [k for k in sorted(res) if same(res[k], cls) and "trace" in res[k]]
            if ok:
                hit = res[ok[0]]["trace"]
                break
            if time.time() - t0 > budget:
                break
        if hit is not None and sum(t[2] for t in hit) < len(pre):
            cur = hit
            pre = [i for i, t in enumerate(cur) if t[2]]
            n = max(2, min(n, len(pre)))
        else:
            if size == 1:
                break
            n = min(len(pre), n * 2)
    return cur, runs


def load_findings():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)
    except OSError:
        return []


def known(sc, r, kf):
    for f in kf:
        if f.get("status") == "open" and f["property"] == sc["prop"] and gen.matches(f["match"], sc, r):
            return f
    return None


def report(pool, libdir, sc, r, tier):
    cls = r["cls"]
    budget = 60 if tier == "quick" else 180
    small, n1 = minimise(pool, sc, cls, budget)
    res = pool.map([{"id": 0, "sc": small, "want_trace": 1, "notes": 1}])[0]
    if not same(res, cls):
        small = sc
        res = pool.map([{"id": 0, "sc": small, "want_trace": 1, "notes": 1}])[0]
    trace = None
    if same(res, cls) and res.get("trace") is not None:
        tr = res["trace"]
        rr = pool.map([{"id": 0, "sc": small, "trace": tr}])[0]
        if same(rr, cls):
            trace, n2 = ddmin(pool, small, tr, cls, 30 if tier == "quick" else 120)
    job = {"id": 0, "sc": small, "notes": 1}
    if trace is not None:
        job["trace"] = trace
    fresh = Pool(1, libdir)
    f1 = fresh.map([job])[0]
    fresh.close()
    if not same(f1, cls):
        job.pop("trace", None)
        job["sc"] = sc
        trace = None
        fresh = Pool(1, libdir)
        f1 = fresh.map([job])[0]
        fresh.close()
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (sc["prop"], hashlib.sha256(json.dumps(job["sc"], sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": sc["prop"], "class": cls, "violation": f1.get("msg", r["msg"]), "reproduced": same(f1, cls),
                   "scenario": job["sc"], "trace": trace, "preemptions": None if trace is None else sum(t[2] for t in trace),
                   "events": f1.get("notes", []), "original_index": sc["idx"], "minimisation_runs": n1}, f, indent=1)
    return path, f1


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    libdir = simbuild.build()
    spec = gen.BUDGET[prop][tier]
    nruns, cap = spec
    if os.environ.get("SIM_RUNS"):
        nruns = int(os.environ["SIM_RUNS"])
    cap = float(os.environ.get("SIM_CAP", cap))
    pool = Pool(NW, libdir)
    kf = load_findings()
    agg = {"runs": 0, "steps": 0, "switches": 0, "now": 0, "faults": {}, "hash": set(), "ops": {}, "err": [], "stuck": [],
           "viol": [], "known": {}, "fired": 0, "nontriv": set(), "preempts": 0, "actors": 0, "sync": 0, "line": 0, "mem": 0,
           "samples": [], "info": {}}

    def cb(job, r):
        agg["runs"] += 1
        sc = job["sc"]
        if r["r"] == "err":
            agg["err"].append((job["id"], r["msg"]))
            return
        if r["r"] == "stuck":
            agg["stuck"].append((sc, r))
            return
        s = r["stats"]
        for k in ("steps", "switches", "preempts", "actors", "sync", "line", "mem"):
            agg[k] += s[k]
        agg["now"] += s["now"]
        for k in ("f_kill", "f_stall", "f_raise", "f_intr"):
            if s[k]:
                agg["faults"][k[2:]] = agg["faults"].get(k[2:], 0) + s[k]
        for k in ("taskfail", "man", "iofail", "ki", "sys"):
            if r["cn"].get(k):
                agg["faults"][k] = agg["faults"].get(k, 0) + r["cn"][k]
        agg["hash"].add(s["hash"])
        if gen.nontrivial(sc, r):
            agg["nontriv"].add((s["hash"], sc["idx"]))
        for o in sc.get("ops", ()):
            agg["ops"][o["op"]] = agg["ops"].get(o["op"], 0) + 1
        for k, v in (r.get("info") or {}).items():
            if isinstance(v, (int, float)):
                agg["info"][k] = agg["info"].get(k, 0) + v
        if is_viol(r):
            f = known(sc, r, kf)
            if f:
                agg["known"].setdefault(f["id"], [f, 0])[1] += 1
            else:
                agg["viol"].append((sc["idx"], sc, r))
        elif len(agg["samples"]) < 6 and s["switches"] > 5:
            agg["samples"].append({"index": sc["idx"], "ops": [(o["op"], o.get("nc"), o.get("nch")) for o in sc.get("ops", ())],
                                   "faults": sc.get("faults", []), "sched": sc.get("sched"), "steps": s["steps"],
                                   "switches": s["switches"], "schedule_hash": "%016x" % s["hash"]})

    def stop(res):
        return bool(agg["viol"]) or len(agg["err"]) > 3 or len(agg["stuck"]) > 3 or time.time() - t0 > cap

    pool.map(({"id": i, "sc": scenario(prop, seed, i, tier)} for i in range(nruns)), stop, cb)
    rc = 0
    nviol = 0
    if agg["stuck"] and not agg["viol"]:
        sc, r = agg["stuck"][0]
        # an endless computation is endless every time
        again = list(pool.map([{"id": k, "sc": sc} for k in range(4)]).values())
        if all(q["r"] == "stuck" for q in again):
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-stuck-%d.json" % (prop, sc["idx"]))
            with open(path, "w") as f:
                json.dump({"property": prop, "class": "stuck", "violation": r["msg"], "scenario": sc, "trace": None}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  stuck: " + r["msg"])
            rc, nviol = 1, 1
        else:
            agg["viol"] += [(sc["idx"], sc, q) for q in again if is_viol(q)]
    if agg["viol"]:
        idx, sc, r = min(agg["viol"], key=lambda v: v[0])
        path, f1 = report(pool, libdir, sc, r, tier)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s" % (r["cls"], f1.get("msg", r["msg"])))
        rc, nviol = 1, len(agg["viol"])
    elif agg["err"]:
        print("HARNESS ERROR in %d runs; first (index %s):\n%s" % (len(agg["err"]), agg["err"][0][0], agg["err"][0][1]))
        if rc == 0:
            rc = 2
    for f, n in agg["known"].values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    pool.close()
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": gen.LEVEL[prop],
          "coverage": {"evaluations": agg["runs"], "distinct_nontrivial": len(agg["nontriv"]),
                       "rule": gen.RULE[prop], "samples": agg["samples"] or [{"note": "no run completed"}]},
          "wall_s": round(wall, 2),
          "simulated_runs": agg["runs"], "seeds_per_hour": round(agg["runs"] / max(wall, 1e-9) * 3600),
          "simulated_time_s": round(agg["now"] / 1e9, 3), "scheduling_points": agg["steps"],
          "points_by_class": {"sync": agg["sync"], "python_line": agg["line"], "native_memory": agg["mem"]},
          "context_switches": agg["switches"], "preemptions": agg["preempts"], "actors": agg["actors"],
          "distinct_interleavings": len(agg["hash"]),
          "interleaving_measure": "64-bit hash over the sequence of (event number, actor resumed) of the main session",
          "faults_injected": agg["faults"], "operations": agg["ops"], "counts": agg["info"],
          "violations": nviol, "known_findings": [f["what"] for f, n in agg["known"].values()],
          "real_components": gen.REAL, "stubbed_components": gen.STUB, "runs_planned": nruns}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs in %.1f s, %d distinct schedules, faults %s, %s" % (
        prop, tier, agg["runs"], wall, len(agg["hash"]), json.dumps(agg["faults"]),
        {0: "held", 1: "VIOLATED", 2: "harness error"}[rc]))
    return rc


def replay(path):
    with open(path) as f:
        d = json.load(f)
    libdir = simbuild.build()
    p = Pool(1, libdir)
    job = {"id": 0, "sc": d["scenario"], "notes": 1}
    if d.get("trace") is not None:
        job["trace"] = d["trace"]
    r = p.map([job])[0]
    p.close()
    print(json.dumps({k: v for k, v in r.items() if k != "trace"}, indent=1))
    if r["r"] in ("viol", "stuck"):
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 0


def main(a):
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "one":
        libdir = simbuild.build()
        p = Pool(1, libdir)
        sc = scenario(a[1], int(os.environ.get("VERIF_SEED", "1")), int(a[2]), "quick")
        print(json.dumps(sc))
        r = p.map([{"id": 0, "sc": sc, "notes": 1}])[0]
        p.close()
        print(json.dumps(r, indent=1))
        return 0
    if a[0] == "determinism":
        return determinism(a[1], int(a[2]))
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)


def determinism(prop, n):
    """the same scenarios on two differently laid-out sets of workers must give identical histories"""
    libdir = simbuild.build()
    out = []
    for k in range(2):
        os.environ["SIM_HASHSEED"] = str(k * 77)
        p = Pool(NW - 3 * k, libdir)
        js = [{"id": i, "sc": scenario(prop, 5, i, "quick")} for i in range(n)]
        if k:
            js.reverse()
        res = p.map(js)
        p.close()
        out.append({i: (r["r"], r.get("cls"), r.get("stats")) for i, r in res.items()})
    bad = [i for i in sorted(out[0]) if out[0][i] != out[1][i]]
    print("%s: %d of %d scenarios differ %s" % (prop, len(bad), n, bad[:10]))
    for i in bad[:2]:
        print(out[0][i], out[1][i])
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
