"""Running one scenario: sessions, faults, guard zones, settings snapshots."""
import ctypes
import errno
import gc
import mmap
import os
import random
import signal
import sys
import warnings
import zlib

import simrt as R
import numpy as np
import multiprocessing.heap as mpheap

P, C, ST = R.P, R.C, R.ST
warnings.simplefilter("ignore")
NS = R.NS
DEF = {"seed": 1, "strat": 2, "gs": 0, "gl": 0, "gm": 0, "line": 0, "tick": 1000}
V_DEADLOCK, V_VTIME, V_STEPS = 2, 3, 4
MAXSTEPS = 6_000_000
MAXNOW = 900 * NS
KIND = {"main": 0, "thread": 1, "proc": 2, "omp": 3, "any": -1}
CLS = {"sync": 0, "line": 1, "mem": 2, "any": -1}
ACT = {"kill": 1, "stall": 2, "raise": 3, "intr": 4}


class Viol(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, cls + ": " + msg)
        self.cls, self.msg = cls, msg


class Harness(Exception):
    pass


TRACE = [None]          # explicit switch list for the main session (replay)


def begin(sched, faults=(), garbage=0, phase=2):
    s = dict(DEF)
    s.update(sched or {})
    P.sim_reset()
    P.sim_counter_add(R.CN_PHASE, phase)
    ST.task_faults = tuple((f["n"], f["when"], f["exc"]) for f in faults if f["t"] == "task")
    ST.man_fault = None
    ST.eval_fault = None
    ST.sys_fault = None
    ST.raise_exc = "MemoryError"
    for f in faults:
        if f["t"] == "point":
            P.sim_add_fault(KIND[f["kind"]], f.get("ord", -1), CLS[f.get("cls", "any")], f["nth"], ACT[f["act"]], f.get("arg", 0))
            if "exc" in f:
                ST.raise_exc = f["exc"]
        elif f["t"] == "man":
            ST.man_fault = f["n"]
        elif f["t"] == "eval":
            ST.eval_fault = f["n"]
        elif f["t"] == "sys":
            ST.sys_fault = f["n"]
    sl = s.get("slow")
    ST.slow_lines = None if not sl or phase != 2 else (s["seed"], sl[0], sl[1])
    ST.slow_left = 40
    R._slowmap.clear()
    P.sim_garbage(garbage, s["seed"] & 0xffffffff)
    P.sim_crand_seed(s["seed"] & 0xffff)
    np.random.seed(s["seed"] & 0xffff)
    strat = s["strat"]
    if phase == 2 and TRACE[0] is not None:
        for ev, to, pre in TRACE[0]:
            P.sim_trace_add(ev, to, pre)
        strat = 3
    gc.collect()
    P.sim_start(s["seed"], strat, s["gs"], s["gl"], s["gm"], s["tick"], MAXSTEPS, MAXNOW)
    ki = any(f.get("act") == "intr" for f in faults)
    if s["line"] or ki:
        R.monitor(s["line"], ki)
    return s


def end():
    R.monitor(0)
    P.sim_stop(1)


def reference(fn, phase=1):
    """run fn without preemption, on zero-filled memory"""
    begin(None, phase=phase)
    ST.plain = True
    try:
        return fn()
    finally:
        ST.plain = False
        end()


def attempt(fn):
    try:
        return ("ret", fn())
    except Viol:
        raise
    except BaseException as e:          # noqa
        return ("exc", e)


def describe(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for f in reversed(tb):
        if f.filename.startswith(R.SRC):
            where = " at %s:%s" % (os.path.basename(f.filename), f.name)
            break
    return "%s: %s%s" % (type(e).__name__, str(e)[:200], where)


def _forked(fn):
    """fn() evaluated in a forked process with nothing run before: (kind, value) of attempt()"""
    import pickle
    fd = os.memfd_create("fresh")
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            k, v = attempt(lambda: reference(fn))
            try:
                b = pickle.dumps((k, v))
                pickle.loads(b)
            except Exception:
                if k == "ret":
                    raise
                b = pickle.dumps((k, RuntimeError("%s" % describe(v))))
            off = 0
            while off < len(b):
                off += os.pwrite(fd, b[off:], off)
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    n = os.fstat(fd).st_size
    b = os.pread(fd, n, 0)
    os.close(fd)
    if st or not n:
        # the reference computation itself crashed or did not end
        v = P.sim_verdict()
        msg = P.sim_msg().decode("utf-8", "replace")
        if v in (V_DEADLOCK, V_VTIME, V_STEPS):
            raise Viol("hang", "the call alone in a fresh process: " + msg)
        raise Viol("crash", "the call alone in a fresh process ended with status %d %s" % (st, msg))
    return pickle.loads(b)


def fresh(fn):
    """like _forked; returns ("ret", arrays)/("exc", (type name, text))"""
    k, v = _forked(fn)
    if k == "exc":
        return k, (type(v).__name__, str(v)[:300])
    return k, tuple(np.array(x) for x in (v if isinstance(v, tuple) else (v,)))


COLD = [False]


def alone(fn):
    """the reference: in a process of its own (so that the measured call finds the libraries as loaded), or in this one"""
    if COLD[0]:
        return _forked(fn)
    return attempt(lambda: reference(fn))


def settle(seconds=60):
    """let background threads and processes finish (virtual time)"""
    R.sim_sleep(seconds)


def settings():
    """of the process, and of this thread"""
    rnd = np.random.get_state()
    return {"env": {k: os.environ.get(k) for k in ("TOMOPY_PYTHON_THREADS",)},
            "ne": ST.ne_threads,
            "OpenMP team size": P.omp_get_max_threads(), "OpenMP dynamic teams": P.omp_get_dynamic(),
            "floating-point errors": str(sorted(np.geterr().items())),
            "signal handlers": str([str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGALRM, signal.SIGPIPE)]),
            "working directory": os.getcwd(), "garbage collection": gc.isenabled(), "recursion limit": sys.getrecursionlimit(),
            "random numbers of Python": hash(random.getstate()), "random numbers": zlib.crc32(rnd[1].tobytes()) + rnd[2]}


def env_keys():
    return dict(os.environ)


def live(kind):
    return P.sim_kindcount(kind, 1)


# ------------------------------------------------------------------ guard zones around buffers handed to native code
GUARD = 256
_guards = []
_shm = {}


def guarded_copy(x, order="C"):
    """a copy of x surrounded by guard bytes inside one larger buffer"""
    x = np.asarray(x)
    buf = np.full(x.nbytes + 2 * GUARD, 0xC7, np.uint8)
    v = buf[GUARD:GUARD + x.nbytes].view(x.dtype).reshape(x.shape, order=order)
    v[...] = x
    _guards.append((buf, x.nbytes, "caller's buffer"))
    P.sim_poison(buf.ctypes.data, GUARD, 1)
    P.sim_poison(buf.ctypes.data + GUARD + x.nbytes, GUARD, 1)
    return v


def check_guards():
    for buf, n, what in _guards:
        if not (buf[:GUARD] == 0xC7).all() or not (buf[GUARD + n:] == 0xC7).all():
            return "bytes outside a %s of %d bytes were overwritten" % (what, n)
    for key, (arena, a, b) in _shm.items():
        if bytes(arena.buffer[a:b]) != b"\xC7" * (b - a):
            return "bytes behind a shared-memory block were overwritten"
    if _shm_bad[0]:
        return "bytes behind a shared-memory block were overwritten"
    return None


_heap_malloc = mpheap.Heap.malloc
_heap_free = mpheap.Heap.free
_shm_bad = [0]


def _addr(arena):
    return ctypes.addressof(ctypes.c_char.from_buffer(arena.buffer))


def guard_shared_memory():
    def malloc(self, size):
        if R._sys_fails("memory"):
            raise OSError(errno.ENOMEM, "Cannot allocate memory")
        blk = _heap_malloc(self, size + GUARD)
        arena, start, stop = blk
        arena.buffer[start + size:start + size + GUARD] = b"\xC7" * GUARD
        P.sim_poison(_addr(arena) + start + size, GUARD, 1)
        _shm[(id(arena), start)] = (arena, start + size, start + size + GUARD)
        return blk

    def free(self, block):
        g = _shm.pop((id(block[0]), block[1]), None)
        if g is not None and bytes(g[0].buffer[g[1]:g[2]]) != b"\xC7" * (g[2] - g[1]):
            _shm_bad[0] += 1
        if g is not None:
            P.sim_poison(_addr(g[0]) + g[1], GUARD, 0)
        return _heap_free(self, block)
    mpheap.Heap.malloc = malloc
    mpheap.Heap.free = free


def guard_numpy():
    """np.empty/zeros/full/ones called from library code return arrays inside guard bytes"""
    def wrap(real, fill=True):
        def f(shape, *a, **k):
            r = real(shape, *a, **k)
            if sys._getframe(1).f_code.co_filename.startswith(R.SRC) and r.nbytes and r.dtype.kind in "fiu" \
                    and r.flags.c_contiguous and len(_guards) < 4000:
                g = guarded_copy(r)
                return g
            return r
        return f
    for n in ("empty", "zeros", "full", "ones", "empty_like", "zeros_like", "copy", "ascontiguousarray"):
        setattr(np, n, wrap(getattr(np, n)))


def shared_block_balance():
    h = mpheap.BufferWrapper._heap
    h._free_pending_blocks() if hasattr(h, "_free_pending_blocks") else None
    return h._n_mallocs - h._n_frees


def shared_counters(n):
    return np.frombuffer(mmap.mmap(-1, 8 * n), dtype=np.int64)
