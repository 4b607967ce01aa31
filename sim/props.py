"""What each scenario does and what must hold: one function per property, raising core.Viol."""
import copy
import gc
import os
import shutil
import threading

import numpy as np

import simrt as R
import core
import ops
from core import P, C, ST, Viol, begin, end, alone, attempt, describe, fresh, settle
from ops import OPS, compare, snapshot, tup

import tomopy
from tomopy.util import mproc, dtype

f32 = np.float32


def setup(sc):
    ST.cpu = sc["cpu"]
    ST.ne_threads = sc.get("ne", sc["cpu"])
    ST.ne_history = []
    P.sim_omp_default(sc["cpu"])
    os.environ.pop("TOMOPY_PYTHON_THREADS", None)
    for k, v in sc.get("env", {}).items():
        os.environ[k] = v


def copies(a):
    return {k: (v.copy() if isinstance(v, (np.ndarray, list)) else v) for k, v in a.items()}


def who(o):
    p = o.get("p") or {}
    n = p.get("n", p.get("shape"))
    return "%s(n=%s, ncore=%s, nchunk=%s)" % (o["op"], n, o["nc"], o["nch"])


def invoke(o, a):
    op = OPS[o["op"]]
    if o.get("bad"):
        return bad_call(o, a)
    return op.call(o["p"], a, o["nc"], o["nch"])


def bad_call(o, a):
    """the same call with something wrong in its arguments"""
    op, p, b = OPS[o["op"]], o["p"], o["bad"]
    if o["op"].startswith("recon_") and o["op"] not in ("recon_callable", "recon_accel"):
        k = op.kwargs(p, a)
        x, init, cen, alg = a["x"], None, a["center"], op.alg
        if b == "alg":
            alg = "no_such_algorithm"
        elif b == "kwarg":
            k["bogus_option"] = 1
        elif b == "ndim":
            x = x[0]
        elif b == "shape":
            cen = np.ones(p["n"] + 2, f32)
        else:
            k["num_gridx"] = "many"
        return tomopy.recon(x, a["theta"], center=cen, sinogram_order=p["so"], algorithm=alg, init_recon=init,
                            ncore=o["nc"], nchunk=o["nch"], **k)
    return op.call(p, dict(a, x=a["x"].reshape(-1)), o["nc"], o["nch"])


def fired():
    return int(P.sim_counter_get(R.CN_TASKFAIL))


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def must_return(k, v, o):
    if k == "exc":
        raise Viol("raised", "%s raised %s" % (who(o), describe(v)))


# ------------------------------------------------------------------ C01 C02 C03 C14
def run_units(sc):
    o = sc["ops"][0]
    op, p = OPS[o["op"]], o["p"]
    a = op.data(p)
    units = op.unitary(p)
    n = op.n(p, a) if units else 1

    def ref():
        if not units:
            return [snapshot(op.call(p, copies(a), 1, None))]
        return [snapshot(op.call(p, op.unit(p, a, i), 1, None)) for i in range(n)]
    k, refs = alone(ref)
    if k == "exc":
        if sc.get("tiny"):
            return {"refused_inputs": 1}
        raise Viol("raised", "%s on one core, alone, raised %s" % (o["op"], describe(refs)))
    b = copies(a)
    begin(sc["sched"], sc["faults"], sc["garbage"])
    try:
        k, v = attempt(lambda: invoke(o, b))
        if k == "ret":
            v = snapshot(v)
    finally:
        end()
    must_return(k, v, o)
    scale = 0.0
    if op.common:
        scale = max(float(np.abs(x).max()) for y in refs for x in y)
    for i in range(n):
        for j, res in enumerate(v):
            if units:
                if res.shape[op.oaxis(p)] != n:
                    raise Viol("wrong", "%s: result has %d units" % (who(o), res.shape[op.oaxis(p)]))
                res = op.pick(p, res, i)
            m = compare(op, refs[i][j], res, scale=scale)
            if m:
                raise Viol("wrong", "%s: unit %d differs from that unit processed alone on one core: %s" % (who(o), i, m))
    return {"units": n}


# ------------------------------------------------------------------ C04
def run_c04(sc):
    o = sc["ops"][0]
    op, p = OPS[o["op"]], o["p"]
    a = op.data(p)
    k, ref = alone(lambda: snapshot(op.call(p, copies(a), 1, None)))
    if k == "exc":
        if sc.get("tiny"):
            return {"refused_inputs": 1}
        raise Viol("raised", "%s with a team of one raised %s" % (o["op"], describe(ref)))
    b = copies(a)
    begin(sc["sched"], sc["faults"], sc["garbage"])
    try:
        k, v = attempt(lambda: invoke(o, b))
        if k == "ret":
            v = snapshot(v)
    finally:
        end()
    must_return(k, v, o)
    if o["op"] == "inpainter_random":
        x, m, y = a["x"], a["mask"], v[0]
        if y.shape != x.shape or y.dtype != x.dtype:
            raise Viol("wrong", "%s: shape or dtype changed" % who(o))
        if not np.array_equal(x[~m], y[~m]):
            raise Viol("wrong", "%s: %d voxels outside the mask changed" % (who(o), (x[~m] != y[~m]).sum()))
        filled_ref = ref[0][m] != 0
        # a fill is a mean of known values, and the sum behind a mean is rounded to float32
        if m.all():
            return
        lo, hi = float(x[~m].min()), float(x[~m].max())
        slack = 1e-5 * max(abs(lo), abs(hi))
        lo, hi = lo - slack, hi + slack
        z = y[m]
        bad = ~(((z >= lo) & (z <= hi)) | (z == 0))
        if bad.any():
            raise Viol("wrong", "%s: %d filled voxels outside the range of the known data" % (who(o), bad.sum()))
        if ((z != 0) != filled_ref).any():
            raise Viol("wrong", "%s: the set of filled voxels differs from that of a team of one" % who(o))
        return
    m = compare(op, ref, v)
    if m:
        raise Viol("wrong", "%s: differs from the result of a team of one: %s" % (who(o), m))


# ------------------------------------------------------------------ C05
CNT = [None, None, None]     # executions per index, first-refusal marks, host pid


def _job(*xs, **kw):
    """user function of the distribution workload; decodes from the data which indices it was given"""
    meta = kw.pop("meta")
    na, axis, nd = meta["na"], meta["axis"], len(meta["shape"])
    arrs, extra = xs[:na], xs[na:]
    C.sim_yield(1)
    codes = [np.asarray(arr, np.float64) - 1000000.0 * (k + 1) for k, arr in enumerate(arrs)]
    stride = int(np.prod(meta["shape"][axis + 1:])) if axis + 1 < nd else 1
    n = meta["shape"][axis]
    idx = [((c.astype(np.int64) // stride) % n) for c in codes]
    c0 = codes[0]
    for c in codes[1:]:
        if c.shape != c0.shape or (c != c0).any():
            CNT[0][n] += 1
    if meta["nch"] == 0:
        ids = sorted(set(idx[0].ravel().tolist()))
        if len(ids) != 1 or c0.ndim != nd - 1:
            CNT[0][n + 1] += 1
    else:
        ids = sorted(set(idx[0].ravel().tolist()))
        if c0.ndim != nd or c0.shape[axis] != len(ids):
            CNT[0][n + 1] += 1
    # the whole slab of each index must be there
    lin = np.arange(int(np.prod(meta["shape"])), dtype=np.float64).reshape(meta["shape"])
    want = np.take(lin, ids, axis=axis)
    if meta["nch"] == 0:
        want = want.reshape(c0.shape) if want.size == c0.size else want
    if want.shape != c0.shape or (want != c0).any():
        CNT[0][n + 2] += 1
    if tuple(extra) != tuple(meta["args"]) or (kw != ({"scale": 7} if meta["kw"] else {})):
        CNT[0][n + 3] += 1
    if any(h in ids for h in meta["host"]):
        hm = meta["hostmode"]
        refuse = (hm == "flag" and not mproc.ON_HOST) or (hm == "pid" and os.getpid() != CNT[2])
        if hm == "first":
            refuse = CNT[1][ids[0]] == 0
            CNT[1][ids[0]] += 1
        if refuse:
            C.sim_yield(1)
            raise mproc.RunOnHostException()
        if hm in ("flag", "pid") and os.getpid() != CNT[2]:
            CNT[0][n + 4] += 1
    C.sim_yield(1)
    for i in ids:
        CNT[0][i] += 1
    last = arrs[-1]
    if meta["mode"] == "inplace":
        last *= 2
        return None
    r = last * 2
    if meta["rs"]:
        # a result with other extents off the distribution axis
        r = np.asarray(r, np.float64)
        ax2 = meta["rs"]
        if meta["nch"] == 0:
            r = r.reshape([s for k, s in enumerate(meta["shape"]) if k != axis])
            ax2 = ax2 - (1 if ax2 > axis else 0)
        r = np.concatenate([r, r + 1], axis=ax2)
    return r


def run_c05(sc):
    j = sc["job"]
    shape, axis, na = tuple(j["shape"]), j["axis"], j["na"]
    n = shape[axis]
    lin = np.arange(int(np.prod(shape))).reshape(shape)
    dts = (j["dt"] * 3)[:na]

    def build():
        return [(lin + 1000000 * (k + 1)).astype(dts[k]) for k in range(na)]
    rs = 0
    for rep in range(j["repeat"]):
        arrs = build()
        if j["shared"]:
            arrs = [dtype.as_sharedmem(x, copy=True) for x in arrs]
        meta = dict(j, rs=0)
        expect = (lin + 1000000 * na).astype(dts[-1]) * 2
        out = None
        if j["out"] == "new":
            out = np.full(shape, -5, j["outdt"] or dts[-1])
            expect = expect.astype(out.dtype)
        elif j["out"] == "reshaped":
            ax2 = [k for k in range(3) if k != axis][-1]
            meta["rs"] = rs = ax2
            s2 = list(shape)
            s2[ax2] *= 2
            out = np.full(s2, -5, "float64")
            e = expect.astype("float64")
            expect = np.concatenate([e, e + 1], axis=ax2)
            if ax2 == 0:        # axis 0 is marked by a value that is not "no reshaping"
                meta["rs"] = 0
                out = None
                expect = (lin + 1000000 * na).astype(dts[-1]) * 2
        elif j["out"] in ("arr0", "last"):
            out = arrs[0 if j["out"] == "arr0" else -1]
            expect = expect.astype(out.dtype)
        if j.get("layout") and not j["shared"]:
            r = np.random.RandomState(n + axis)
            arrs = [x if x is out else layout(x, j["layout"], r)[0] for x in arrs]
        before = [x.copy() for x in arrs]
        CNT[0] = core.shared_counters(n + 5)
        CNT[1] = core.shared_counters(n + 5)
        CNT[2] = os.getpid()
        arg = arrs[0] if na == 1 and j["mode"] != "list1" else arrs
        kw = {"meta": meta}
        if j["kw"]:
            kw["scale"] = 7
        if rep == 0:
            begin(sc["sched"], sc["faults"], sc["garbage"])
        try:
            k, v = attempt(lambda: mproc.distribute_jobs(arg, _job, axis - 3 if j.get("neg") else axis, args=tuple(j["args"]), kwargs=kw, ncore=j["nc"],
                                                         nchunk=j["nch"], out=out))
            got = snapshot(v)[0] if k == "ret" else None
        except Viol:
            end()
            raise
        if rep == j["repeat"] - 1 or k == "exc":
            end()
        name = "distribute_jobs(n=%d, axis=%d, ncore=%s, nchunk=%s, out=%s)" % (n, axis, j["nc"], j["nch"], j["out"])
        if k == "exc":
            raise Viol("raised", "%s raised %s" % (name, describe(v)))
        c = CNT[0]
        for i in range(n):
            if c[i] != 1:
                P.sim_stop(1)
                raise Viol("count", "%s: the function was applied %d times to index %d" % (name, c[i], i))
        for q, t in ((n, "the arrays of one job were cut differently"), (n + 1, "a job got slices of a wrong shape"),
                     (n + 2, "a job did not get the complete slices of its indices"), (n + 3, "a job got wrong extra arguments"),
                     (n + 4, "a job that asked for the host ran in a worker")):
            if c[q]:
                P.sim_stop(1)
                raise Viol("args", "%s: %s" % (name, t))
        if out is not None and v is not out:
            P.sim_stop(1)
            raise Viol("out", "%s: the given output array is not what is returned" % name)
        if got.shape != expect.shape or got.dtype != expect.dtype or not np.array_equal(got, expect):
            P.sim_stop(1)
            bad = -1
            if got.shape == expect.shape:
                bad = int((got != expect).sum())
            raise Viol("wrong", "%s: the result is not at the right place (%d elements differ)" % (name, bad))
        if not j["shared"]:
            for x, y in zip(arrs, before):
                if x is not out and not np.array_equal(x, y):
                    P.sim_stop(1)
                    raise Viol("input", "%s: an input array was modified" % name)
    return {"jobs": n * j["repeat"]}


# ------------------------------------------------------------------ C06 C07
def whole_ref(o, a):
    op = OPS[o["op"]]
    k, ref = alone(lambda: snapshot(op.call(o["p"], copies(a), 1, None)))
    if k == "exc":
        raise Viol("raised", "%s on one core raised %s" % (o["op"], describe(ref)))
    return ref


def run_c06(sc):
    o = sc["ops"][0]
    op = OPS[o["op"]]
    a = op.data(o["p"])
    ref = whole_ref(o, a)
    b = copies(a)
    begin(sc["sched"], sc["faults"], sc["garbage"])
    try:
        k, v = attempt(lambda: invoke(o, b))
        if k == "ret":
            v = snapshot(v)
        n, m = fired(), int(P.sim_counter_get(R.CN_SYSFAIL))
    finally:
        end()
    if n == 0 and m == 0:
        must_return(k, v, o)
    elif k == "ret" and n:
        raise Viol("swallowed", "%s returned although %d worker failure(s) occurred" % (who(o), n))
    elif k == "exc" and op.kind == "thread" and m == 0 and not any(isinstance(e, R.Injected) for e in chain(v)):
        raise Viol("replaced", "%s: the worker's exception was replaced by %s" % (who(o), describe(v)))
    if k == "ret":
        m = compare(op, ref, v)
        if m:
            raise Viol("wrong", "%s: %s" % (who(o), m))
    return {"failures_fired": n, "calls_with_failure": 1 if n else 0, "calls_refused_a_worker": m}


def run_c07(sc):
    o = sc["ops"][0]
    op = OPS[o["op"]]
    a = op.data(o["p"])
    ref = whole_ref(o, a)
    b = copies(a)
    begin(sc["sched"], sc["faults"], sc["garbage"])
    try:
        k, v = attempt(lambda: invoke(o, b))
        if k == "ret":
            v = snapshot(v)
        st = R.stats()
        n = st["f_kill"] + int(P.sim_counter_get(R.CN_MANFAIL)) + int(P.sim_counter_get(R.CN_WCRASH))
        settle(120)
        left = core.live(R.K_PROC)
    finally:
        end()
    if n == 0:
        must_return(k, v, o)
    if k == "ret":
        m = compare(op, ref, v)
        if m:
            raise Viol("partial", "%s returned an incomplete or wrong result after the death of a worker: %s" % (who(o), m))
    if left:
        raise Viol("survivors", "%s: %d worker processes still exist two minutes after the call ended" % (who(o), left))
    return {"deaths_fired": n, "calls_with_death": 1 if n else 0, "returned_despite_death": 1 if n and k == "ret" else 0}


# ------------------------------------------------------------------ C08
# (functions that draw from the global generator of numpy)
RANDOM_OPS = ("misc_random",)


def settings(ops):
    s = core.settings()
    if any(o["op"] in RANDOM_OPS for o in ops):
        s.pop("random numbers")
    return s


def changes(before, now):
    return "; ".join("%s: %s instead of %s" % (k, now[k], before[k]) for k in before if now[k] != before[k])


def run_c08(sc):
    datas = [OPS[o["op"]].data(o["p"]) for o in sc["ops"]]
    gc.collect()
    blocks = core.shared_block_balance()
    begin(sc["sched"], sc["faults"], sc["garbage"])
    try:
        for o, a in zip(sc["ops"], datas):
            b = copies(a)
            user_settings(o)
            before, envb = settings([o]), core.env_keys()
            k, v = attempt(lambda: invoke(o, b))
            what = "returned" if k == "ret" else "raised " + describe(v)
            if k == "exc":
                v.__traceback__ = None
                for e in chain(v):
                    e.__traceback__ = None
            now, envn = settings([o]), core.env_keys()
            v = b = e = None
            settle(90)
            gc.collect()
            if now != before:
                raise Viol("settings", "%s %s and left %s" % (who(o), what, changes(before, now)))
            if envn != envb:
                d = sorted(set(envn.items()) ^ set(envb.items()))
                raise Viol("settings", "%s %s and changed the environment: %s" % (who(o), what, d))
            if core.live(R.K_PROC):
                raise Viol("processes", "%s %s and left %d worker processes" % (who(o), what, core.live(R.K_PROC)))
            if core.live(R.K_THREAD):
                raise Viol("threads", "%s %s and left %d threads" % (who(o), what, core.live(R.K_THREAD)))
            m = int(P.sim_counter_get(R.CN_MANAGER))
            if m:
                raise Viol("helper", "%s %s and left %d helper process(es) running" % (who(o), what, m))
            x = core.shared_block_balance()
            if x != blocks:
                raise Viol("shm", "%s %s and left %d shared-memory blocks allocated" % (who(o), what, x - blocks))
    finally:
        end()


# ------------------------------------------------------------------ C09
def user_settings(o):
    """what the user sets before the call"""
    if "limit" in o:
        if o["limit"] is None:
            os.environ.pop("TOMOPY_PYTHON_THREADS", None)
        else:
            os.environ["TOMOPY_PYTHON_THREADS"] = o["limit"]
    if "ne" in o:
        ST.ne_threads = o["ne"]
    if "omp" in o:
        P.omp_set_num_threads(o["omp"][0])
        P.omp_set_dynamic(o["omp"][1])


def arm(faults):
    t0 = int(P.sim_counter_get(R.CN_TASKS))
    m0 = int(P.sim_counter_get(R.CN_MANOPS))
    ST.task_faults = tuple((f["n"] + t0, f["when"], f["exc"]) for f in faults if f["t"] == "task")
    for f in faults:
        if f["t"] == "point":
            P.sim_add_fault(core.KIND[f["kind"]], -1, core.CLS[f.get("cls", "any")], f["nth"], core.ACT[f["act"]], f.get("arg", 0))
            ST.raise_exc = f.get("exc", "MemoryError")
        elif f["t"] == "man":
            ST.man_fault = f["n"] + m0
        elif f["t"] == "eval":
            ST.eval_fault = f["n"]
        elif f["t"] == "sys":
            ST.sys_fault = f["n"] + int(P.sim_counter_get(R.CN_SYS))


def hits():
    s = R.stats()
    return fired() + s["f_kill"] + s["f_raise"] + int(P.sim_counter_get(R.CN_MANFAIL)) + int(P.sim_counter_get(R.CN_SYSFAIL))


def run_c09(sc):
    datas = []
    for o in sc["ops"]:
        d = datas[o["same"]] if "same" in o else OPS[o["op"]].data(o["p"])
        if o.get("refill") and isinstance(d.get("x"), np.ndarray) and d["x"].ndim:
            # the same arrays, in which the caller has put other numbers
            d = dict(d, x=np.roll(d["x"], 1, axis=-1))
        datas.append(d)
    refs = []
    for o, a in zip(sc["ops"], datas):
        refs.append(fresh(lambda: snapshot(invoke(o, copies(a)))))
    live, kept = [], []
    for i, (o, a) in enumerate(zip(sc["ops"], datas)):
        live.append(live[o["same"]] if "same" in o else copies(a))
    begin(sc["sched"], (), sc["garbage"])
    try:
        for i, (o, b) in enumerate(zip(sc["ops"], live)):
            if i == sc.get("fault_at"):
                arm(sc["faults"])
            user_settings(o)
            if o.get("refill"):
                for key, x in datas[i].items():
                    if isinstance(x, np.ndarray) and x.ndim:
                        b[key][...] = x
            h = hits()
            k, v = attempt(lambda: invoke(o, b))
            if k == "ret":
                own = [x for x in tup(v) if isinstance(x, np.ndarray)]
                v = snapshot(v)
                if not any(np.may_share_memory(x, y) for x in own for y in b.values() if isinstance(y, np.ndarray)):
                    if sc.get("scribble"):
                        # the result belongs to the caller now
                        for x in own:
                            if x.flags.writeable:
                                x[...] = 1
                    else:
                        kept.append((i, own, [x.copy() for x in own]))
            if i == sc.get("fault_at"):
                ST.task_faults, ST.man_fault, ST.eval_fault, ST.sys_fault = (), None, None, None
            if hits() != h:
                continue
            rk, rv = refs[i]
            hist = " after " + ", ".join(q["op"] + ("!" if q.get("bad") else "") for q in sc["ops"][:i]) if i else ""
            if k == "exc" and rk == "ret":
                raise Viol("raised", "%s%s raised %s; in a fresh process it returns" % (who(o), hist, describe(v)))
            if k == "ret" and rk == "exc":
                raise Viol("accepted", "%s%s returned; in a fresh process it raises %s" % (who(o), hist, rv[0]))
            if k == "exc":
                if type(v).__name__ != rv[0]:
                    raise Viol("raised", "%s%s raised %s; in a fresh process it raises %s" % (who(o), hist, describe(v), rv[0]))
                continue
            m = compare(OPS[o["op"]], rv, v)
            if m:
                raise Viol("wrong", "%s%s differs from the same call in a fresh process: %s" % (who(o), hist, m))
        for i, own, was in kept:
            for x, y in zip(own, was):
                if x.tobytes() != y.tobytes():
                    raise Viol("changed", "the result of %s was changed by a later call: %s" % (
                        who(sc["ops"][i]), ", ".join(q["op"] for q in sc["ops"][i + 1:])))
    finally:
        end()
    return {"results_kept": len(kept)}


# ------------------------------------------------------------------ C10
def run_c10(sc):
    refs, datas = [], []
    for o in sc["ops"]:
        a = OPS[o["op"]].data(o["p"])
        datas.append(a)
        k, v = alone(lambda: snapshot(invoke(o, copies(a))))
        if k == "exc" and not o.get("bad"):
            raise Viol("raised", "%s alone raised %s" % (who(o), describe(v)))
        refs.append((k, v))
    got, kept = [], []

    def body(i, o, a):
        for t in range(o.get("times", 1)):
            b = copies(a)
            k, v = attempt(lambda: invoke(o, b))
            if k == "ret":
                own = [x for x in tup(v) if isinstance(x, np.ndarray)]
                v = snapshot(v)
                kept.append((i, own, [x.copy() for x in own]))
            got.append((i, k, v))
    begin(sc["sched"], sc["faults"], sc["garbage"])
    before, envb = settings(sc["ops"]), core.env_keys()
    try:
        ts = [threading.Thread(target=body, args=(i, o, a)) for i, (o, a) in enumerate(zip(sc["ops"], datas))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        after, enva = settings(sc["ops"]), core.env_keys()
    finally:
        end()
    want = sum(o.get("times", 1) for o in sc["ops"])
    if len(got) != want:
        raise core.Harness("%d of %d calls" % (len(got), want))
    for i, k, v in sorted(got, key=lambda g: g[0]):
        o = sc["ops"][i]
        others = ", ".join(q["op"] for j, q in enumerate(sc["ops"]) if j != i)
        rk, rv = refs[i]
        if k == "exc" and rk == "ret":
            raise Viol("raised", "%s concurrent with %s raised %s" % (who(o), others, describe(v)))
        if k == "ret" and rk == "exc":
            raise Viol("accepted", "%s concurrent with %s returned; alone it raises %s" % (who(o), others, describe(rv)))
        if k == "exc":
            if type(v) is not type(rv):
                raise Viol("raised", "%s concurrent with %s raised %s instead of %s" % (who(o), others, describe(v), describe(rv)))
            continue
        m = compare(OPS[o["op"]], rv, v)
        if m:
            raise Viol("wrong", "%s concurrent with %s: %s" % (who(o), others, m))
    for i, own, was in kept:
        if any(x.tobytes() != y.tobytes() for x, y in zip(own, was)):
            raise Viol("changed", "the result of %s was changed by another call: %s" % (
                who(sc["ops"][i]), ", ".join(q["op"] for q in sc["ops"])))
    if after != before or enva != envb:
        raise Viol("settings", "after %s at the same time: %s %s" % (
            ", ".join(q["op"] for q in sc["ops"]), changes(before, after), sorted(set(envb.items()) ^ set(enva.items()))))
    return {"concurrent_calls": want}


# ------------------------------------------------------------------ C11
def layout(x, how, r):
    """an array with the values of x in the given storage, and the buffer to watch"""
    if how == "F":
        y = np.asfortranarray(x)
        if x.flags.f_contiguous and x.flags.c_contiguous:
            y = x.copy()
        return y, y
    if how == "strided":
        ax = r.randint(x.ndim)
        s = list(x.shape)
        s[ax] *= 2
        big = np.full(s, 77, x.dtype)
        sl = [slice(None)] * x.ndim
        sl[ax] = slice(r.randint(2), None, 2)
        v = big[tuple(sl)]
        v[...] = x
        return v, big
    if how == "reversed":
        ax = r.randint(x.ndim)
        big = np.ascontiguousarray(np.flip(x, ax))
        return np.flip(big, ax), big
    if how == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y, y
    if how == "transposed":
        perm = list(r.permutation(x.ndim))
        base = np.ascontiguousarray(np.transpose(x, perm))
        return np.transpose(base, np.argsort(perm)), base
    if how == "offset":
        s = [q + 2 for q in x.shape]
        big = np.full(s, 77, x.dtype)
        v = big[tuple(slice(1, 1 + q) for q in x.shape)]
        v[...] = x
        return v, big
    if how == "shared":
        y = dtype.as_sharedmem(x, copy=True)
        return y, y
    if how == "sharedview":
        ax = r.randint(x.ndim)
        s = list(x.shape)
        kind = r.randint(4)
        if kind == 0:
            s[ax] += 1
            sl = slice(1, None)
        elif kind == 1:
            s[ax] *= 2
            sl = slice(None, None, 2)
        elif kind == 2:
            s[ax] += 1
            sl = slice(0, x.shape[ax])
        else:
            perm = list(r.permutation(x.ndim))
            big = dtype.as_sharedmem(np.ascontiguousarray(np.transpose(x, perm)), copy=True)
            return np.transpose(big, np.argsort(perm)), big
        big = dtype.as_sharedmem(np.full(s, 77, x.dtype), copy=True)
        q = [slice(None)] * x.ndim
        q[ax] = sl
        v = big[tuple(q)]
        v[...] = x
        return v, big
    if how == "f64" and x.dtype == np.float32:
        y = x.astype(np.float64)        # exact, and converted back by the library
        return y, y
    if how == "swapped" and x.dtype.kind in "fiu" and x.dtype.itemsize > 1:
        y = x.astype(x.dtype.newbyteorder())
        return y, y
    if how == "subclass":
        y = x.copy().view(Named)
        return y, y
    y = x.copy()
    return y, y


class Named(np.ndarray):
    """a subclass that adds nothing"""


def run_c11(sc):
    if "gpu" in sc:
        return run_c18(sc)
    o = sc["ops"][0]
    op, p = OPS[o["op"]], o["p"]
    a = op.data(p)
    k, ref = alone(lambda: snapshot(op.call(p, copies(a), o["nc"], o["nch"])))
    if k == "exc":
        raise Viol("raised", "%s raised %s" % (who(o), describe(ref)))
    r = np.random.RandomState(sc["lseed"])
    b, watch, lists = {}, [], []
    for key in sorted(a):
        v = a[key]
        if isinstance(v, np.ndarray) and v.ndim:
            how = sc["layout"]
            if key != "x" and how in ("shared", "sharedview") and r.rand() < 0.7:
                how = "plain"
            b[key], buf = layout(v, how, r)
            if not np.array_equal(b[key], v, equal_nan=v.dtype.kind == "f"):
                raise core.Harness("layout %s changed values" % how)
            if how not in ("shared", "sharedview"):
                watch.append((key, buf, buf.tobytes("A")))
        else:
            b[key] = copy.deepcopy(v)
            if isinstance(v, list):
                lists.append((key, b[key], list(v)))
    begin(sc["sched"], sc["faults"], sc["garbage"])
    try:
        k, v = attempt(lambda: invoke(o, b))
        if k == "ret":
            v = snapshot(v)
        n = hits()
    finally:
        end()
    what = "%s with %s input" % (who(o), sc["layout"])
    for key, buf, bits in watch:
        if buf.tobytes("A") != bits:
            raise Viol("modified", "%s: the caller's array '%s' was modified" % (what, key))
    for key, mine, was in lists:
        if mine != was:
            raise Viol("modified", "%s: the caller's list '%s' was modified" % (what, key))
    if n == 0:
        if k == "exc":
            raise Viol("raised", "%s raised %s" % (what, describe(v)))
        if sc["layout"] in ("f64", "swapped"):
            # the same numbers in another type: the result may keep that type, and be rounded later
            v = tuple(np.asarray(y).astype(np.asarray(x).dtype) for x, y in zip(tup(ref), tup(v)))
            m = compare(op, ref, v, 1e-4)
        else:
            m = compare(op, ref, v)
        if m:
            raise Viol("wrong", "%s: differs from the result for a contiguous copy: %s" % (what, m))
    return {"arrays_watched": len(watch)}


# ------------------------------------------------------------------ C12
def misfit(m, p, a):
    """arguments that do not belong together"""
    mode, u, v, d, val = m
    if mode == "param":
        ks = sorted(k for k in p if type(p[k]) is int and k in ("gx", "gy", "grid", "iter", "block", "k", "axis", "size", "size3", "np", "off", "air"))
        if ks:
            p = dict(p)
            k = ks[int(u * len(ks))]
            p[k] = {"half": 0, "double": 40 if k in ("gx", "gy", "air") else 9, 1: 1 + 2 * (k in ("gx", "gy"))}.get(d, d) if k != "grid" else {"half": -p["dx"], "double": 3 * p["dx"]}.get(d, d)
            return p, a
        mode = "size"
    ks = sorted(k for k, x in a.items() if isinstance(x, (list, np.ndarray)) and np.size(x) and np.ndim(x))
    if mode == "value":
        ks = [k for k in ks if k in ("theta", "center", "cen", "ind_block", "reg_par", "filter_par", "mask")] or ks
    if not ks:
        return p, a
    # angles and centers rather than data
    few = [k for k in ks if k in ("theta", "theta2", "center", "cen", "cen2", "ind_block", "init")]
    if few and u < 0.6:
        ks, u = few, u / 0.6
    k = ks[int(u * len(ks))]
    x = np.array(a[k])
    if mode == "value":
        x.ravel()[int(v * x.size)] = (np.asarray(float(val)) if x.dtype.kind == "f" else np.asarray({"nan": 77, "inf": 1 << 30, "-inf": -(1 << 30)}.get(val, val))).astype(x.dtype)
    else:
        ax = int(v * x.ndim)
        n = x.shape[ax]
        m = max(0, {"half": n // 2, "double": 2 * n}.get(d, n + d if d not in ("half", "double") else n))
        x = np.ascontiguousarray(np.take(x, np.arange(m) % n, axis=ax))
    return p, dict(a, **{k: x.tolist() if isinstance(a[k], list) else x})


def run_c12(sc):
    P.sim_poison_enable(1)
    core.guard_shared_memory()
    core.guard_numpy()
    datas = []
    for o in sc["ops"]:
        a = OPS[o["op"]].data(o["p"])
        if sc.get("misfit"):
            p, a = misfit(sc["misfit"], o["p"], a)
            o = o2 = dict(o, p=p)
            sc = dict(sc, ops=[o2])
        datas.append({k: (core.guarded_copy(v) if isinstance(v, np.ndarray) and v.nbytes and v.dtype.kind in "fiu" else v) for k, v in a.items()})
    res = []

    def body(o, a):
        res.append((o, attempt(lambda: invoke(o, a))))
    begin(sc["sched"], sc["faults"], sc["garbage"])
    try:
        if sc.get("conc"):
            ts = [threading.Thread(target=body, args=(o, a)) for o, a in zip(sc["ops"], datas)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            for o, a in zip(sc["ops"], datas):
                body(o, a)
        P.sim_check_heap()
        s = R.stats()
    finally:
        end()
    names = ", ".join(who(o) for o in sc["ops"])
    for o, (k, v) in res:
        if k == "exc" and not sc.get("tiny") and not sc.get("misfit"):
            raise Viol("raised", "%s raised %s" % (who(o), describe(v)))
    if int(P.sim_counter_get(R.CN_WCRASH)):
        raise Viol("crash", "%s: native code crashed in a worker" % names)
    if s["overflow"]:
        raise Viol("overflow", "%s read or wrote memory outside the blocks it owns" % names)
    if s["uaf"]:
        raise Viol("uaf", "%s wrote to a heap block after freeing it" % names)
    if s["bad_free"]:
        raise Viol("badfree", "%s freed a block twice or freed something that is no block" % names)
    g = core.check_guards()
    if g:
        raise Viol("guard", "%s: %s" % (names, g))
    if s["planner_conc"]:
        raise Viol("planner", "%s used the FFT planner from two threads at once" % names)
    if s["nalloc"] != s["nfree"]:
        raise Viol("leak", "%s: %d heap blocks allocated, %d freed" % (names, s["nalloc"], s["nfree"]))
    pl = int(P.sim_counter_get(50)), int(P.sim_counter_get(51))
    if pl[0] != pl[1]:
        raise Viol("leak", "%s: %d FFT plans made, %d destroyed" % (names, pl[0], pl[1]))
    return {"heap_blocks": s["nalloc"], "fft_plans": pl[0]}


# ------------------------------------------------------------------ C13
def run_c13(sc):
    o = sc["ops"][0]
    op, p = OPS[o["op"]], o["p"]
    a = op.data(p)
    b = copies(a)
    P.sim_omp_reqmax(1)
    prior = [(q, OPS[q["op"]].data(q["p"])) for q in sc.get("prior", ())]
    begin(sc["sched"], (), sc["garbage"])
    try:
        for q, d in prior:
            if q.get("armed"):
                arm(sc["faults"])
            user_settings(q)
            attempt(lambda: invoke(q, d))
            P.sim_disarm()
            ST.task_faults, ST.man_fault, ST.eval_fault, ST.sys_fault = (), None, None, None
        user_settings({"limit": sc["env"].get("TOMOPY_PYTHON_THREADS")})
        ST.slow = sc["slow"]
        ST.ne_history = []
        P.sim_par_reset()
        if sc.get("thread"):
            got = []
            t = threading.Thread(target=lambda: got.append(attempt(lambda: invoke(o, b))))
            t.start()
            t.join()
            k, v = got[0]
        else:
            k, v = attempt(lambda: invoke(o, b))
        s = R.stats()
    finally:
        end()
        ST.slow = False
    must_return(k, v, o)
    nc, cpu = o["nc"], sc["cpu"]
    cap = cpu if nc is None else nc
    lim = sc["env"].get("TOMOPY_PYTHON_THREADS")
    if o["op"].startswith("recon_") and lim:
        cap = min(cap, int(lim))
    if op.kind == "proc":
        cap = min(cap, cpu)
    for kind, key in (("threads", "par_thread"), ("processes", "par_proc"), ("native team members", "par_omp")):
        if s[key] > cap:
            raise Viol("toomany", "%s on %d CPUs%s had %d worker %s active at once, allowed %d" % (
                who(o), cpu, " with TOMOPY_PYTHON_THREADS=%s" % lim if lim else "", s[key], kind, cap))
    ncap = cpu if nc is None else min(nc, cpu)
    if ST.ne_history and max(ST.ne_history) > ncap and o["op"] in ("minus_log", "normalize", "pointwise"):
        raise Viol("toomany", "%s evaluated an expression on %d threads, allowed %d" % (who(o), max(ST.ne_history), ncap))
    used = max(s["par_thread"], s["par_proc"], s["par_omp"])
    # (by default a call may leave one processor to the user)
    if sc["slow"] and op.kind in ("thread", "proc", "ppe") and op.units and cap - (nc is None) >= 2 and cpu >= 2:
        n = op.n(p, a)
        if n >= 2 * max(1, o["nch"] or 1) and n >= 2 and used < 2:
            raise Viol("serial", "%s on %d CPUs ran one piece at a time" % (who(o), cpu))
    return {"max_workers": used}


# ------------------------------------------------------------------ C15
def run_c15(sc):
    o, o2 = sc["ops"]
    op, op2 = OPS[o["op"]], OPS[o2["op"]]
    a, a2 = op.data(o["p"]), op2.data(o2["p"])
    ref, ref2 = whole_ref(o, a), whole_ref(o2, a2)
    b, b2 = copies(a), copies(a2)
    begin(sc["sched"], sc["faults"], sc["garbage"])
    try:
        k, v = attempt(lambda: invoke(o, b))
        if k == "ret":
            v = snapshot(v)
        late = (P.sim_now() - P.sim_intr_at()) / 1e9
        P.sim_disarm()
        ki = int(P.sim_counter_get(R.CN_KI))
        if P.sim_pending_intr():
            P.sim_take_intr()
        desc = describe(v) if k == "exc" else ""
        isk = k == "exc" and any(isinstance(e, KeyboardInterrupt) for e in chain(v))
        if k == "exc":
            for e in chain(v):
                e.__traceback__ = None
            v = e = None
        settle(120)
        gc.collect()
        left = core.live(R.K_PROC)
        if ki and not isk:
            raise Viol("ignored", "%s was interrupted and %s" % (who(o), "returned" if k == "ret" else "raised " + desc))
        if ki and late > 30:
            raise Viol("slow", "%s ended %d seconds after it was interrupted" % (who(o), late))
        if not ki:
            if k == "exc":
                raise Viol("raised", "%s raised %s" % (who(o), desc))
            m = compare(op, ref, v)
            if m:
                raise Viol("wrong", "%s: %s" % (who(o), m))
        if left:
            raise Viol("survivors", "%s was interrupted and %d worker processes still exist two minutes later" % (who(o), left))
        k2, v2 = attempt(lambda: invoke(o2, b2))
        if k2 == "exc":
            raise Viol("later", "%s after an interrupted %s raised %s" % (who(o2), who(o), describe(v2)))
        m = compare(op2, ref2, snapshot(v2))
        if m:
            raise Viol("later", "%s after an interrupted %s: %s" % (who(o2), who(o), m))
    finally:
        end()
    return {"interrupts_delivered": ki}


# ------------------------------------------------------------------ C16
def scratch():
    d = os.path.join(os.environ["SIM_SCRATCH"], "t")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def run_c16(sc):
    import fakes
    import tifffile
    d = scratch()
    w = sc["w"]
    r = np.random.RandomState(w["ds"] % (2 ** 31))
    disk = fakes.install_disk()
    nsaved = 0

    def image(k):
        x = np.random.RandomState((w["ds"] + 31 * k) % (2 ** 31)).rand(*w["shape"]) * 200 + 1
        return x.astype(w["dtype"] or "float32")

    def path(base, digit, ext):
        f = base if digit is None else os.path.join(base, str(digit))
        return f if f.endswith(ext) else f + "." + ext

    def same_file(f, img, what):
        if not os.path.exists(f):
            raise Viol("missing", "%s returned and %s does not exist" % (what, os.path.basename(f)))
        try:
            y = tifffile.imread(f)
        except Exception as e:
            raise Viol("torn", "%s returned and %s cannot be read: %s" % (what, os.path.basename(f), e))
        if y.dtype != img.dtype or y.squeeze().shape != img.squeeze().shape or not np.array_equal(y.squeeze(), img.squeeze()):
            raise Viol("torn", "%s returned and %s does not hold the image" % (what, os.path.basename(f)))
    sub = os.path.join(d, *(["q%d" % q for q in range(w["depth"])]))
    earlier = None
    if w["prev"]:
        os.makedirs(sub, exist_ok=True)
        earlier = os.path.join(sub, "earlier.tiff")
        tifffile.imwrite(earlier, image(999))

    def existing(f):
        """the name is already taken by what an earlier session left: a whole image, or the remains of one"""
        e = w.get("exist")
        if not e or os.path.exists(f):
            return
        os.makedirs(os.path.dirname(f), exist_ok=True)
        tifffile.imwrite(f, np.tile(image(555), (1,) * (len(w["shape"]) - 1) + (3,)) if e == "bigger" else image(555))
        if e == "empty":
            open(f, "wb").close()
        elif e == "garbage":
            with open(f, "wb") as h:
                h.write(b"II no image" * 30)
        elif e == "torn":
            os.truncate(f, os.path.getsize(f) // 2)
    if sc["kind"] == "write_tiff":
        for q in range(w["n"]):
            if (w["ds"] >> q) & 1:
                existing(path(os.path.join(sub, "im%d" % q) + (w["ext"] if w["digit"] is None else ""), w["digit"], "tif" if w["ext"] == ".tif" else "tiff"))
    elif sc["kind"] == "write_center":
        for q in range(w["n"]):
            existing(os.path.join(sub, "centers", "%.2f.tiff" % (3 + 0.5 * q)))
    else:
        for q in range(w["nthr"]):
            existing(os.path.join(sub, "new", "w%d_%d.tiff" % (q, w["ds"] & 1)))
    disk.ops, disk.fired, disk.closed = 0, {}, {}
    disk.faults = sc.get("disk", {}).get("faults", [])
    disk.space = sc.get("disk", {}).get("space")
    hard = lambda: sum(v for k, v in disk.fired.items() if k != "short")      # noqa
    mine = lambda: disk.by.get(P.sim_id(), 0)      # noqa
    try:
        if sc["kind"] == "write_tiff":
            calls = []
            begin(sc["sched"], sc["faults"], sc["garbage"])
            try:
                for q in range(w["n"]):
                    base = os.path.join(sub, "im%d" % q) + (w["ext"] if w["digit"] is None else "")
                    ext = "tif" if (w["ext"] == ".tif") else "tiff"
                    h = hard()
                    k, v = attempt(lambda: tomopy.util.misc.write_tiff(image(q), fname=base, digit=w["digit"], ext=ext))
                    calls.append((q, path(base, w["digit"], ext), k, v, hard() - h))
            finally:
                end()
            for q, f, k, v, h in calls:
                if k == "ret":
                    if h:
                        raise Viol("swallowed", "write_tiff returned although the disk failed")
                    same_file(f, image(q), "write_tiff")
                elif not h:
                    raise Viol("raised", "write_tiff raised %s without a disk failure" % describe(v))
        elif sc["kind"] == "write_center":
            dx, nang = 8, 4
            t = (0.2 + r.rand(nang, 3, dx)).astype(f32)
            th = tomopy.angles(nang)
            cr = [3, 3 + 0.5 * w["n"], 0.5]
            kw = dict(ind=1, cen_range=cr, algorithm="gridrec" if w["ow"] else "fbp", filter_name="shepp", mask=bool(w["ds"] & 1))
            cens = np.arange(*cr)

            def one(c):
                st = np.ascontiguousarray(t[:, 1:2, :].swapaxes(0, 1))
                rec = tomopy.recon(st, th, center=np.array([c]), sinogram_order=True, algorithm=kw["algorithm"], filter_name="shepp", ncore=1)
                return tomopy.circ_mask(rec, axis=0)[0].copy() if kw["mask"] else rec[0].copy()
            k, refs = alone(lambda: [one(c) for c in cens])
            if k == "exc":
                raise Viol("raised", "one trial centre alone raised %s" % describe(refs))
            disk.ops, disk.fired, disk.closed = 0, {}, {}
            out = os.path.join(sub, "centers")
            other = os.path.join(out, "other.tiff")
            if w["prev"]:
                os.makedirs(out, exist_ok=True)
                tifffile.imwrite(other, image(998))
            begin(sc["sched"], sc["faults"], sc["garbage"])
            try:
                k, v = attempt(lambda: tomopy.write_center(t, th, dpath=out, **kw))
            finally:
                end()
            disk.faults, disk.space = [], None
            if k == "ret":
                if hard():
                    raise Viol("swallowed", "write_center returned although the disk failed")
                files = [f for f in sorted(os.listdir(out)) if f != "other.tiff"]
                if len(files) != len(cens):
                    raise Viol("missing", "write_center returned and left %d files for %d centres" % (len(files), len(cens)))
                for c, im in zip(cens, refs):
                    f = os.path.join(out, "%.2f.tiff" % c)
                    if not os.path.exists(f):
                        raise Viol("missing", "write_center returned and %.2f.tiff does not exist" % c)
                    y = tifffile.imread(f)
                    sca = np.abs(im).max() + 1e-30
                    if y.shape != im.shape or np.abs(y - im).max() > 3e-4 * sca:
                        raise Viol("torn", "write_center: %.2f.tiff does not hold the reconstruction at that centre" % c)
            elif not hard():
                raise Viol("raised", "write_center raised %s without a disk failure" % describe(v))
            else:
                for c in cens:
                    f = os.path.abspath(os.path.join(out, "%.2f.tiff" % c))
                    if f in disk.closed:
                        nsaved += 1
                        if not os.path.exists(f):
                            raise Viol("lost", "write_center failed, and %.2f.tiff, which it had completed, does not exist any more" % c)
                        with open(f, "rb") as h:
                            if h.read() != disk.closed[f]:
                                raise Viol("lost", "write_center failed, and %.2f.tiff, which it had completed, has changed" % c)
            if w["prev"]:
                if not os.path.exists(other):
                    raise Viol("lost", "a file that was there before write_center does not exist any more")
                same_file(other, image(998), "an earlier call")
        else:
            res = []

            def body(q):
                for z in range(2):
                    h = mine()
                    base = os.path.join(sub, "new", "w%d_%d" % (q, z))
                    k, v = attempt(lambda: tomopy.util.misc.write_tiff(image(q * 10 + z), fname=base))
                    res.append((base + ".tiff", q * 10 + z, k, v, mine() - h))
            begin(sc["sched"], sc["faults"], sc["garbage"])
            try:
                ts = [threading.Thread(target=body, args=(q,)) for q in range(w["nthr"])]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            finally:
                end()
            for f, q, k, v, h in res:
                if k == "ret":
                    if h:
                        raise Viol("swallowed", "write_tiff (one of %d writers) returned although the disk failed" % w["nthr"])
                    same_file(f, image(q), "write_tiff (one of %d writers)" % w["nthr"])
                elif not h:
                    raise Viol("raised", "write_tiff, one of %d concurrent writers, raised %s" % (w["nthr"], describe(v)))
        if earlier:
            if not os.path.exists(earlier):
                raise Viol("lost", "a file that was there before does not exist any more")
            same_file(earlier, image(999), "an earlier call")
    finally:
        disk.faults, disk.space = [], None
        shutil.rmtree(d, ignore_errors=True)
    return dict({"disk_" + k: v for k, v in disk.fired.items()}, files_kept_after_failure=nsaved)


# ------------------------------------------------------------------ C17
def run_c17(sc):
    import fakes
    m = sc["mpi"]
    size = m["size"]
    w = fakes.install_mpi(size) if size else None
    nranks = max(1, size)
    got = [[] for _ in range(nranks)]
    errs = []

    def body(rank):
        if w:
            w.local.rank = rank
        for q in range(m["rounds"]):
            k, v = attempt(lambda: mproc.get_worker_ncore_slices(m["n"], m["nc"], m["nch"]))
            if w:
                w.returned.append((int(P.sim_ev()), rank, q))
            if k == "exc":
                errs.append((rank, v))
                return
            got[rank].append(v)
            C.sim_yield(0)
    if w:
        w.returned = []
        w.called = []
    begin(sc["sched"], sc["faults"], sc["garbage"])
    try:
        ts = [threading.Thread(target=body, args=(q,)) for q in range(nranks)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        end()
    name = "division of %d slices among %s ranks (ncore=%s, nchunk=%s)" % (m["n"], size or "no", m["nc"], m["nch"])
    if errs:
        raise Viol("raised", "%s: rank %d raised %s" % (name, errs[0][0], describe(errs[0][1])))
    for q in range(m["rounds"]):
        cnt = np.zeros(m["n"], int)
        for rank in range(nranks):
            nc, slcs = got[rank][q]
            for s in slcs:
                if isinstance(s, (slice, int, np.integer)):
                    cnt[s] += 1
                else:
                    raise Viol("wrong", "%s: %r is not a slice" % (name, s))
                if m["nch"] == 0 and isinstance(s, slice):
                    raise Viol("wrong", "%s: chunk size zero must give plain indices" % name)
                if m["nch"] and cnt[s].size > m["nch"]:
                    raise Viol("wrong", "%s: a piece has %d slices" % (name, cnt[s].size))
        if (cnt != 1).any():
            i = int(np.argmax(cnt != 1))
            raise Viol("cover", "%s: slice %d belongs to %d pieces" % (name, i, cnt[i]))
    if w:
        for q in range(m["rounds"]):
            ent = {}
            for ev, rank in w.entered:
                ent.setdefault(rank, []).append(ev)
            for ev, rank, qq in w.returned:
                if qq == q:
                    for other in range(size):
                        if len(ent.get(other, ())) <= q or ent[other][q] > ev:
                            raise Viol("barrier", "%s: rank %d left before rank %d arrived" % (name, rank, other))
    return {"ranks": nranks}


# ------------------------------------------------------------------ C18
UFO = {"fbp": tomopy.ufo_fbp, "dfi": tomopy.ufo_dfi}


def run_c18(sc):
    import fakes
    g = sc["gpu"]
    dev = fakes.Device()
    n, nang, dx = g["n"], g["nang"], g["dx"]
    r = np.random.RandomState(g["ds"] % (2 ** 31))
    t = (0.2 + r.rand(n, nang, dx)).astype(f32)
    th = tomopy.angles(nang).astype(f32)
    lib = g["lib"]
    cen = None
    if g["cen"] == "scalar" or (lib != "astra" and g["cen"] == "array"):
        cen = f32(dx / 2. + r.randint(-1, 2))
    elif g["cen"] == "array":
        cen = (dx / 2. + r.uniform(-1, 1, n)).astype(f32)
    cpu = lib == "astra" and g["cpu"]
    if lib == "astra":
        mod = fakes.install_astra(dev, g["post"])
        opts = {"proj_type": "linear" if cpu else "cuda", "method": "SIRT" if cpu else "SIRT_CUDA", "num_iter": 2}
        if not g["default"] and not cpu:
            opts["gpu_list"] = list(g["gpus"])
        if g.get("extra"):
            opts["extra_options"] = {"MinConstraint": 0.5}
    elif lib == "ufo":
        fakes.install_ufo(dev)
        opts = None
    else:
        fakes.install_lprec(dev)
        opts = None
    kw = dict(center=cen, sinogram_order=True, ncore=1)

    def call():
        x = t if g["so"] else np.ascontiguousarray(np.swapaxes(t, 0, 1))
        x = x.copy()
        mine = [("x", x), ("theta", th)] + ([("center", cen)] if np.ndim(cen) else [])
        was = [v.tobytes() for _, v in mine], copy.deepcopy(opts)
        try:
            return ask(x)
        finally:
            if sc["prop"] == "C11":
                for (key, v), b in zip(mine, was[0]):
                    if v.tobytes() != b:
                        raise Viol("modified", "reconstruction by %s: the caller's array '%s' was modified" % (lib, key))
                if opts != was[1]:
                    raise Viol("modified", "reconstruction by %s: the caller's options became %s" % (lib, opts))

    def ask(x):
        k = dict(kw, sinogram_order=g["so"])
        if lib == "astra":
            return tomopy.recon(x, th, algorithm=tomopy.astra, options=opts, **k)
        k2 = dict(k)
        if lib == "ufo":
            k2["ncore"] = g["ufo_nc"]
            if g["ufo_grid"]:
                k2["num_gridx"] = k2["num_gridy"] = dx + g["ufo_grid"]
            return tomopy.recon(x, th, algorithm=UFO[g["ufo"]], **k2)
        if not g["default"]:
            k2["gpu_list"] = list(g["gpus"])
        return tomopy.recon(x, th, algorithm=tomopy.lprec, lpmethod=g["lpm"], num_iter=2, **k2)

    def ref_one(i):
        c = cen if cen is None or np.ndim(cen) == 0 else cen[i:i + 1]
        k = dict(center=c, sinogram_order=True, ncore=1)
        if lib == "astra":
            oo = copy.deepcopy({q: v for q, v in opts.items() if q != "gpu_list"})
            return tomopy.recon(t[i:i + 1].copy(), th, algorithm=tomopy.astra, options=oo, **k)
        if lib == "ufo":
            return tomopy.recon(t[i:i + 1].copy(), th, algorithm=UFO[g["ufo"]], **k)
        return tomopy.recon(t[i:i + 1].copy(), th, algorithm=tomopy.lprec, lpmethod=g["lpm"], num_iter=2, gpu_list=[0], **k)
    k, refs = alone(lambda: [np.array(ref_one(i)) for i in range(n)])
    if k == "exc":
        raise Viol("raised", "one slice alone raised %s" % describe(refs))
    dev.runs, dev.clash = [], None
    name = "reconstruction of %d slices by %s on devices %s" % (n, lib, g["gpus"])
    begin(sc["sched"], sc["faults"], sc["garbage"])
    try:
        for q in range(g["rounds"]):
            del dev.runs[:]
            dev.failed = dev.calls = 0
            dev.fail = g["fail"] if q == 0 else None
            dev.cfail = g["cfail"] if q == 0 else None
            k, v = attempt(call)
            if k == "ret":
                v = np.array(v)
            if dev.clash:
                raise Viol("device", "%s: %s" % (name, dev.clash))
            if dev.failed:
                if k == "ret":
                    raise Viol("swallowed", "%s returned although a device failed" % name)
                continue
            if lib == "ufo" and g["ufo_grid"]:
                # the result of the toolbox does not fit into the grid: the thread that copies it fails
                if k == "ret":
                    raise Viol("swallowed", "%s returned although its thread failed" % name)
                continue
            if k == "exc":
                raise Viol("raised", "%s raised %s" % (name, describe(v)))
            if v.shape[0] != n:
                raise Viol("wrong", "%s: %d slices returned" % (name, v.shape[0]))
            for i in range(n):
                sc_ = np.abs(refs[i]).max()
                if v[i].shape != refs[i][0].shape or not np.abs(v[i] - refs[i][0]).max() <= 1e-5 * sc_:
                    raise Viol("wrong", "%s: slice %d is not the one reconstructed alone" % (name, i))
            if lib != "lprec" and len(dev.runs) != n:
                raise Viol("count", "%s: %d device runs" % (name, len(dev.runs)))
    finally:
        end()
    if lib == "astra" and not g["fail"] and g["cfail"] is None and mod._st["obj"] and not dev.failed and g["fail"] is None:
        raise Viol("leak", "%s: %d toolbox objects were not deleted" % (name, len(mod._st["obj"])))
    return {"device_runs": len(dev.runs), "device_failures": dev.failed}


# ------------------------------------------------------------------ C19
def run_c19(sc):
    datas, refs = [], []
    for o in sc["ops"]:
        a = OPS[o["op"]].data(o["p"])
        datas.append(a)
        refs.append(whole_ref(o, a))
    got = []

    def body(i, o, a):
        k, v = attempt(lambda: invoke(o, copies(a)))
        got.append((i, k, snapshot(v) if k == "ret" else v))
    begin(sc["sched"], sc["faults"], sc["garbage"])
    try:
        if sc.get("conc"):
            ts = [threading.Thread(target=body, args=(i, o, a)) for i, (o, a) in enumerate(zip(sc["ops"], datas))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            for i, (o, a) in enumerate(zip(sc["ops"], datas)):
                body(i, o, a)
        n = fired()
        kills = R.stats()["f_kill"]
    finally:
        end()
    for i, k, v in sorted(got, key=lambda q: q[0]):
        o = sc["ops"][i]
        if n and k == "ret":
            raise Viol("swallowed", "%s returned a centre although a worker failed" % who(o))
        if k == "exc":
            if n or kills:
                continue
            raise Viol("raised", "%s raised %s" % (who(o), describe(v)))
        m = compare(OPS[o["op"]], refs[i], v)
        if m:
            raise Viol("wrong", "%s: centre %r instead of %r" % (who(o), v[0].tolist(), refs[i][0].tolist()))
    return {"searches": len(got), "failures_fired": n + kills}


RUN = {"C01": run_units, "C02": run_units, "C03": run_units, "C14": run_units, "C04": run_c04, "C05": run_c05, "C06": run_c06,
       "C07": run_c07, "C08": run_c08, "C09": run_c09, "C10": run_c10, "C11": run_c11, "C12": run_c12, "C13": run_c13,
       "C15": run_c15, "C16": run_c16, "C17": run_c17, "C18": run_c18, "C19": run_c19}
EXTRA = [ops._user_alg, _job]


def run(sc):
    core.COLD[0] = bool(sc.get("cold"))
    setup(sc)
    return RUN[sc["prop"]](sc)
