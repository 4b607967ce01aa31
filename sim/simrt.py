"""Python side of the simulator: seams for threads, processes, pools, managers, clocks, memory.

Import this module before anything that uses threads or pools.  While no simulation is
active every seam behaves like the ordinary single-threaded thing.
"""
import ctypes
import os
import sys
import _thread
import threading
import time
import pickle
import struct
import mmap
import queue
import signal
import traceback
import weakref
import errno
import zlib

LIBDIR = os.environ["SIM_LIBDIR"]
C = ctypes.CDLL(os.path.join(LIBDIR, "libsim.so"))      # releases the GIL (may switch)
P = ctypes.PyDLL(os.path.join(LIBDIR, "libsim.so"))     # keeps the GIL (never switches)
u64, i64, cint = ctypes.c_uint64, ctypes.c_int64, ctypes.c_int
for _L in (C, P):
    _L.sim_map.restype = ctypes.c_void_p
    _L.sim_start.argtypes = [u64, cint, u64, u64, u64, i64, u64, i64]
    _L.sim_now.restype = i64
    _L.sim_intr_at.restype = i64
    _L.sim_advance.argtypes = [i64]
    _L.sim_ev.restype = u64
    _L.sim_rand.restype = u64
    _L.sim_rand.argtypes = [u64]
    _L.sim_block.argtypes = [u64, i64, cint]
    _L.sim_notify.argtypes = [u64, cint]
    _L.sim_add_fault.argtypes = [cint, cint, cint, u64, cint, i64]
    _L.sim_trace_add.argtypes = [u64, cint, cint]
    _L.sim_trace_ev.restype = u64
    _L.sim_msg.restype = ctypes.c_char_p
    _L.sim_abort.argtypes = [ctypes.c_char_p]
    _L.sim_stat.restype = u64
    _L.sim_counter_add.restype = u64
    _L.sim_counter_add.argtypes = [cint, i64]
    _L.sim_counter_get.restype = u64
    _L.sim_garbage.argtypes = [cint, u64]
    _L.sim_fill.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
    _L.sim_live_blocks.restype = u64
    _L.sim_live_bytes.restype = u64
    _L.sim_crand_seed.argtypes = [u64]
    _L.sim_poison.argtypes = [ctypes.c_void_p, ctypes.c_size_t, cint]

SYNC, LINE, MEM = 0, 1, 2
K_MAIN, K_THREAD, K_PROC, K_OMP = 0, 1, 2, 3
W_NOTIFY, W_TIMEOUT, W_INTR = 0, 1, 2
F_KILL, F_STALL, F_RAISE, F_INTR = 1, 2, 3, 4
EXITRES = 0xE000000000
NS = 1000000000

# shared counters (libsim counter[] indexes)
CN_ID, CN_MANAGER, CN_MANOPS, CN_TASKS, CN_TASKFAIL, CN_IO, CN_IOFAIL, CN_MANFAIL, CN_KI = range(9)
CN_PHASE, CN_EVAL = 40, 41
CN_WCRASH = 60
CN_SYS, CN_SYSFAIL = 42, 43

class Injected(Exception):
    """marker mixed into injected exceptions so that oracles can recognise them"""

class InjectedValueError(Injected, ValueError):
    def __init__(self, *a):
        super().__init__(*a)

class InjectedMemoryError(Injected, MemoryError):
    def __init__(self, *a):
        super().__init__(*a)

class InjectedRuntimeError(Injected, RuntimeError):
    def __init__(self, *a):
        super().__init__(*a)

class InjectedOSError(Injected, OSError):
    def __init__(self, *a):
        super().__init__(*a)

class InjectedKeyError(Injected, KeyError):
    def __init__(self, *a):
        super().__init__(*a)

class InjectedStopIteration(Injected, StopIteration):
    def __init__(self, *a):
        super().__init__(*a)

class InjectedUnpicklable(Injected):
    """an error that cannot be sent to another process"""
    def __init__(self, *a):
        super().__init__(*a)
        self.thing = lambda: None

EXC = {"ValueError": InjectedValueError, "MemoryError": InjectedMemoryError,
       "RuntimeError": InjectedRuntimeError, "OSError": InjectedOSError, "KeyError": InjectedKeyError,
       "StopIteration": InjectedStopIteration, "Unpicklable": InjectedUnpicklable}

class State:
    cpu = 4                 # simulated CPU count
    ne_threads = 4          # simulated numexpr threads
    ne_history = None
    raise_exc = "MemoryError"
    task_faults = ()        # tuple of (ordinal, when, excname)
    man_fault = None        # fail the n-th manager operation
    in_worker = False       # inside a forked worker
    daemon = False
    notes = None
    line_mode = 0           # 0 off, 1 line, 2 instruction
    io_faults = ()
    slow = False            # every task of a pool takes some virtual time
    thread_par = False
    plain = False           # reference calls: ordinary output arrays
    slow_lines = None       # (seed, per mille, seconds): lines of the library that take long
    slow_left = 0
    sys_fault = None        # the n-th request for a thread, a process or memory fails

ST = State()

def active():
    return P.sim_active()

def note(*a):
    if ST.notes is not None and len(ST.notes) < 400:
        ST.notes.append([int(P.sim_ev()), int(P.sim_id()), " ".join(str(x) for x in a)])

def new_id():
    return 0x100000000 + P.sim_counter_add(CN_ID, 1) * 16

_local_ids = [0]

def local_id():
    _local_ids[0] += 1
    return 0x10000000 + _local_ids[0]

def yield_(cls=SYNC):
    r = C.sim_yield(cls)
    return r

# ---------------------------------------------------------------- locks
_cond_wait = threading.Condition.wait.__code__
_thread_start = threading.Thread.start.__code__

class SimLock:
    __slots__ = ("_l", "_id", "__weakref__")

    def __init__(self):
        self._l = False
        self._id = local_id()

    def acquire(self, blocking=True, timeout=-1):
        if not P.sim_active():
            if self._l:
                if not blocking:
                    return False
                if P.sim_verdict() == 0 and not ST.in_worker:
                    raise RuntimeError("lock would block outside the simulation")
            self._l = True
            return True
        C.sim_yield(0)
        if not self._l:
            self._l = True
            return True
        if not blocking:
            return False
        end = None
        if timeout is not None and timeout >= 0:
            end = P.sim_now() + int(timeout * NS)
        # interrupts end the wait for a condition (a future, an event), not the short-lived locks around it
        # (several of them stand for atomic C code here)
        intr = 0
        if P.sim_id() == 0:
            f = sys._getframe(1)
            intr = int(f.f_code is _cond_wait and f.f_back.f_back.f_code is not _thread_start)
        while self._l:
            rem = -1 if end is None else max(0, end - P.sim_now())
            r = C.sim_block(self._id, rem, intr)
            if r == W_INTR:
                P.sim_take_intr()
                P.sim_counter_add(CN_KI, 1)
                note("KeyboardInterrupt in lock")
                raise KeyboardInterrupt
            if r == W_TIMEOUT and self._l:
                return False
        self._l = True
        return True

    __enter__ = acquire

    def release(self):
        if not self._l:
            raise RuntimeError("release unlocked lock")
        self._l = False
        if P.sim_active():
            P.sim_notify(self._id, 0)
            C.sim_yield(0)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._l

    def _at_fork_reinit(self):
        self._l = False

class SimRLock:
    __slots__ = ("_b", "_o", "_n", "__weakref__")

    def __init__(self):
        self._b = SimLock()
        self._o = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._o == me:
            self._n += 1
            return True
        r = self._b.acquire(blocking, timeout)
        if r:
            self._o = me
            self._n = 1
        return r

    __enter__ = acquire

    def release(self):
        if self._o != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._o = None
            self._b.release()

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, st):
        self._b.acquire()
        self._n, self._o = st

    def _release_save(self):
        st = (self._n, self._o)
        self._n = 0
        self._o = None
        self._b.release()
        return st

    def _is_owned(self):
        return self._o == _thread.get_ident()

    def _recursion_count(self):
        return self._n if self._o == _thread.get_ident() else 0

    def _at_fork_reinit(self):
        self._b._at_fork_reinit()
        self._o = None
        self._n = 0

def _rlock(*a, **k):
    return SimRLock()

# The actor of a forked worker comes into being in the last of the before-fork hooks: the
# hooks of logging and concurrent.futures take locks, and must not hand control to a
# process that does not exist yet.
_forking = {}

def _spawn_last():
    # per caller: the other before-fork hooks take locks, so that callers may interleave here
    p = _forking.pop(P.sim_id(), None)
    if p is not None:
        p.sid = P.sim_spawn(K_PROC)

assert "logging" not in sys.modules and "concurrent.futures.thread" not in sys.modules
os.register_at_fork(before=_spawn_last)

_real_start = _thread.start_new_thread
_real_monotonic = time.monotonic
_real_sleep = time.sleep
_real_time = time.time
_real_perf = time.perf_counter

def _sys_fails(what):
    """failing system calls: the n-th request of the user's process for a thread, a process or memory"""
    if ST.sys_fault is None or ST.in_worker or not P.sim_active():
        return False
    if P.sim_counter_add(CN_SYS, 1) - 1 != ST.sys_fault:
        return False
    P.sim_counter_add(CN_SYSFAIL, 1)
    note("no", what)
    return True

def _eagain():
    return BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")

def _sim_start_new_thread(func, args=(), kwargs={}):
    if not P.sim_active():
        return _real_start(func, args, kwargs)
    owner = getattr(func, "__self__", None)
    if not getattr(owner, "_sim_own", False) and _sys_fails("thread"):
        raise RuntimeError("can't start new thread")
    sid = P.sim_spawn(K_THREAD)
    if isinstance(owner, threading.Thread):
        owner._sim_id = sid

    box = [func, args, kwargs]
    del func, args, kwargs, owner

    def boot():
        C.sim_attach(sid)
        try:
            box[0](*box[1], **box[2])
        finally:
            del box[:]          # nothing of ours is freed after the token is given away
            C.sim_exit(0)
    r = _real_start(boot, ())
    C.sim_yield(0)
    return r

_orig_join = threading.Thread.join
_orig_is_alive = threading.Thread.is_alive

def _join(self, timeout=None):
    sid = getattr(self, "_sim_id", None)
    if sid is not None and P.sim_active():
        if not self._started.is_set():
            raise RuntimeError("cannot join thread before it is started")
        if self is threading.current_thread():
            raise RuntimeError("cannot join current thread")
        end = None if timeout is None else P.sim_now() + int(timeout * NS)
        main = P.sim_id() == 0
        while P.sim_alive(sid):
            rem = -1 if end is None else max(0, end - P.sim_now())
            r = C.sim_block(EXITRES + sid, rem, 1 if main else 0)
            if r == W_INTR:
                P.sim_take_intr()
                P.sim_counter_add(CN_KI, 1)
                note("KeyboardInterrupt in join")
                raise KeyboardInterrupt
            if r == W_TIMEOUT and P.sim_alive(sid):
                return
        return _orig_join(self)
    return _orig_join(self, timeout)

def _is_alive(self):
    sid = getattr(self, "_sim_id", None)
    if sid is not None and P.sim_active():
        return bool(P.sim_alive(sid))
    return _orig_is_alive(self)

def sim_monotonic():
    if P.sim_active():
        return P.sim_now() / NS
    return _real_monotonic()

def sim_time():
    if P.sim_active():
        return 1.6e9 + P.sim_now() / NS
    return _real_time()

def sim_sleep(s):
    if P.sim_active():
        end = P.sim_now() + int(s * NS)
        rid = new_id()
        while P.sim_now() < end:
            r = C.sim_block(rid, end - P.sim_now(), 1 if P.sim_id() == 0 else 0)
            if r == W_INTR:
                P.sim_take_intr()
                P.sim_counter_add(CN_KI, 1)
                raise KeyboardInterrupt
        return
    return _real_sleep(s)

threading.Lock = SimLock
threading._allocate_lock = SimLock
threading.RLock = _rlock
threading._start_new_thread = _sim_start_new_thread
threading.Thread.join = _join
threading.Thread.is_alive = _is_alive
threading._time = sim_monotonic
time.monotonic = sim_monotonic
time.time = sim_time
time.perf_counter = sim_monotonic
time.sleep = sim_sleep
queue.SimpleQueue = queue._PySimpleQueue
queue.time = sim_monotonic

import concurrent.futures._base as _cfb          # noqa: E402
import concurrent.futures.thread as _cft         # noqa: E402
import concurrent.futures as _cf                 # noqa: E402
from concurrent.futures.process import BrokenProcessPool   # noqa: E402
import multiprocessing as mp                     # noqa: E402
import multiprocessing.pool as _mpp              # noqa: E402
import multiprocessing.process as _mpproc        # noqa: E402

# addresses must not influence any order: futures get serial numbers
_fser = [0]
_fut_init = _cfb.Future.__init__

def _future_init(self):
    _fser[0] += 1
    self._sim_serial = _fser[0]
    _fut_init(self)

_thr_init = threading.Thread.__init__

def _thread_init(self, *a, **k):
    _fser[0] += 1
    self._sim_serial = _fser[0]
    _thr_init(self, *a, **k)

threading.Thread.__init__ = _thread_init
threading.Thread.__hash__ = lambda self: getattr(self, "_sim_serial", 0)
threading.Thread.__eq__ = lambda self, o: self is o
_cfb.Future.__init__ = _future_init
_cfb.Future.__hash__ = lambda self: self._sim_serial
_cfb.Future.__eq__ = lambda self, o: self is o

def _af_init(self, futures):
    self.futures = sorted(futures, key=lambda f: f._sim_serial)

_cfb._AcquireFutures.__init__ = _af_init

# ---------------------------------------------------------------- thread pools: real code on simulated locks
class _Task:
    """Wraps a submitted callable: counts active workers, injects task failures."""
    __slots__ = ("fn", "ord", "kind")

    def __init__(self, fn, ord_, kind):
        self.fn = fn
        self.ord = ord_
        self.kind = kind

    def __call__(self, *a, **k):
        C.sim_yield(0)
        P.sim_par(self.kind, 1)
        try:
            for (o, when, exc) in ST.task_faults:
                if o == self.ord and when == "before":
                    P.sim_counter_add(CN_TASKFAIL, 1)
                    note("task", self.ord, "raises", exc)
                    raise EXC[exc]("injected into task %d" % self.ord)
            if ST.slow:
                sim_sleep(0.05)
            r = self.fn(*a, **k)
            C.sim_yield(0)
            for (o, when, exc) in ST.task_faults:
                if o == self.ord and when == "after":
                    P.sim_counter_add(CN_TASKFAIL, 1)
                    note("task", self.ord, "raises", exc)
                    raise EXC[exc]("injected into task %d" % self.ord)
            return r
        finally:
            P.sim_par(self.kind, -1)

_tpe_submit = _cft.ThreadPoolExecutor.submit

def _submit(self, fn, /, *args, **kwargs):
    if P.sim_active():
        o = P.sim_counter_add(CN_TASKS, 1) - 1
        fn = _Task(fn, o, K_THREAD)
    return _tpe_submit(self, fn, *args, **kwargs)

_cft.ThreadPoolExecutor.submit = _submit

# ---------------------------------------------------------------- shared queues between processes
class ShmQueue:
    def __init__(self):
        self.fd = os.memfd_create("q")
        self.hd = mmap.mmap(-1, 64)
        self.id = new_id()

    def _get(self):
        return struct.unpack_from("QQQ", self.hd, 0)

    def put_bytes(self, b):
        r, w, n = self._get()
        os.pwrite(self.fd, struct.pack("Q", len(b)) + b, w)
        struct.pack_into("QQQ", self.hd, 0, r, w + 8 + len(b), n + 1)
        P.sim_notify(self.id, 0)

    def put(self, o):
        self.put_bytes(pickle.dumps(o, protocol=4))

    def qsize(self):
        return self._get()[2]

    def get_bytes(self, block=True, timeout=None, intr=0):
        end = None if timeout is None else P.sim_now() + int(timeout * NS)
        while True:
            r, w, n = self._get()
            if n:
                ln = struct.unpack("Q", os.pread(self.fd, 8, r))[0]
                b = os.pread(self.fd, ln, r + 8)
                while len(b) < ln:
                    b += os.pread(self.fd, ln - len(b), r + 8 + len(b))
                struct.pack_into("QQQ", self.hd, 0, r + 8 + ln, w, n - 1)
                return b
            if not block or not P.sim_active():
                raise queue.Empty
            rem = -1 if end is None else max(0, end - P.sim_now())
            x = C.sim_block(self.id, rem, intr)
            if x == W_INTR:
                P.sim_take_intr()
                raise KeyboardInterrupt
            if x == W_TIMEOUT and not self.qsize():
                raise queue.Empty

    def get(self, block=True, timeout=None, intr=0):
        return pickle.loads(self.get_bytes(block, timeout, intr))

    def close(self):
        try:
            os.close(self.fd)
        except OSError:
            pass

    def __del__(self):
        self.close()

# ---------------------------------------------------------------- processes

def _check_daemon():
    if ST.daemon:
        raise AssertionError("daemonic processes are not allowed to have children")

class SimProcess:
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
        SimProcess._count += 1
        self.name = name or "SimProcess-%d" % SimProcess._count
        self.daemon = bool(daemon)
        self.pid = None
        self.sid = None
        self._reaped = False

    ident = property(lambda self: self.pid)

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        _check_daemon()
        C.sim_yield(0)
        sys.stdout.flush()
        sys.stderr.flush()
        _forking[P.sim_id()] = self
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                ST.in_worker = True
                C.sim_attach(self.sid)
                ST.daemon = self.daemon
                ST.notes = None
                import random
                random.seed(self.sid)
                P.sim_crand_seed(self.sid)
                self.run()
                code = 0
            except SystemExit as e:
                c = e.code
                code = 0 if c is None else (c if isinstance(c, int) else 1)
            except BaseException:
                code = 1
            finally:
                C.sim_exit(code & 0xff)
                os._exit(code & 0xff)
        self.pid = pid
        C.sim_yield(0)

    @property
    def exitcode(self):
        if self.sid is None:
            return None
        C.sim_yield(0)
        if P.sim_alive(self.sid):
            return None
        return P.sim_exitcode(self.sid)

    def is_alive(self):
        C.sim_yield(0)
        return self.sid is not None and bool(P.sim_alive(self.sid))

    def _reap(self):
        if not self._reaped and self.pid:
            self._reaped = True
            try:
                os.waitpid(self.pid, 0)
            except (ChildProcessError, OSError):
                pass

    def join(self, timeout=None):
        end = None if timeout is None else P.sim_now() + int(timeout * NS)
        while P.sim_alive(self.sid):
            rem = -1 if end is None else max(0, end - P.sim_now())
            r = C.sim_block(EXITRES + self.sid, rem, 0)
            if r == W_TIMEOUT and P.sim_alive(self.sid):
                return
        self._reap()

    def _kill(self, code):
        if self.sid is not None and P.sim_alive(self.sid):
            os.kill(self.pid, signal.SIGKILL)
            self._reap()
            P.sim_reap(self.sid, code)
        C.sim_yield(0)

    def terminate(self):
        self._kill(-15)

    def kill(self):
        self._kill(-9)

    def close(self):
        pass

    def __repr__(self):
        return "<%s>" % self.name

# ---------------------------------------------------------------- multiprocessing.Pool
class _Result:
    def __init__(self, pool, n, chunk, single, callback=None, error_callback=None):
        self._pool = pool
        self._id = local_id()
        self._left = n
        self._chunk = chunk
        self._single = single
        self._success = True
        self._value = None if single else []
        self._parts = {}
        self._cb, self._ecb = callback, error_callback
        self._done = n == 0
        self._job = pool._jobno
        pool._jobno += 1
        if n:
            pool._cache[self._job] = self

    def _set(self, i, ok, val):
        self._left -= 1
        if ok:
            self._parts[i] = val
        elif self._success:
            self._success = False
            self._value = val
        if self._left <= 0:
            if self._success:
                if self._single:
                    self._value = self._parts[0]
                else:
                    self._value = [x for k in sorted(self._parts) for x in self._parts[k]]
                if self._cb:
                    self._cb(self._value)
            elif self._ecb:
                self._ecb(self._value)
            self._done = True
            self._pool._cache.pop(self._job, None)
            P.sim_notify(self._id, 0)

    def ready(self):
        C.sim_yield(0)
        return self._done

    def successful(self):
        if not self._done:
            raise ValueError("not ready")
        return self._success

    def wait(self, timeout=None):
        end = None if timeout is None else P.sim_now() + int(timeout * NS)
        C.sim_yield(0)
        while not self._done:
            rem = -1 if end is None else max(0, end - P.sim_now())
            r = C.sim_block(self._id, rem, 1 if P.sim_id() == 0 else 0)
            if r == W_INTR:
                P.sim_take_intr()
                P.sim_counter_add(CN_KI, 1)
                note("KeyboardInterrupt in wait")
                raise KeyboardInterrupt
            if r == W_TIMEOUT and not self._done:
                return

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._done:
            raise mp.TimeoutError
        if self._success:
            return self._value
        raise self._value

def _apply_batch(func, batch, star):
    if star:
        return [func(*x) for x in batch]
    return [func(x) for x in batch]

RUN, CLOSE, TERMINATE = "RUN", "CLOSE", "TERMINATE"

class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = ST.cpu
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        _check_daemon()
        if not P.sim_active():
            raise RuntimeError("simulated pool used outside the simulation")
        self._n = processes
        self._init = (initializer, tuple(initargs))
        self._maxtasks = maxtasksperchild
        self._tq = ShmQueue()
        self._rq = ShmQueue()
        self._cache = {}
        self._jobno = 0
        self._state = RUN
        self._pool = []
        self._sent = 0
        self._fin = False
        self._finid = local_id()
        note("pool of", processes)
        for _ in range(processes):
            try:
                if _sys_fails("process"):
                    raise _eagain()
            except OSError:
                # as the real pool does
                for p in self._pool:
                    p.terminate()
                for p in self._pool:
                    p.join()
                raise
            self._spawn()
        self._handler = threading.Thread(target=self._handle, daemon=True)
        self._handler._sim_own = True
        self._handler.start()

    def _spawn(self):
        p = SimProcess(target=self._worker, daemon=True)
        p.start()
        self._pool.append(p)

    def _worker(self):
        if self._init[0]:
            self._init[0](*self._init[1])
        done = 0
        while self._maxtasks is None or done < self._maxtasks:
            C.sim_yield(0)
            try:
                t = self._tq.get(intr=1)
            except Exception as e:       # unpicklable task: the real worker loop survives
                raise SystemExit(1)
            if t is None:
                break
            job, i, func, batch, star, single = t
            C.sim_yield(0)
            P.sim_par(K_PROC, 1)
            try:
                if ST.slow:
                    sim_sleep(0.05)
                if single:
                    a, k = batch
                    res = (True, func(*a, **k))
                else:
                    res = (True, _apply_batch(func, batch, star))
            except Exception as e:
                e.__traceback__ = None
                res = (False, e)
            finally:
                P.sim_par(K_PROC, -1)
            C.sim_yield(0)
            try:
                b = pickle.dumps((job, i) + res, protocol=4)
            except Exception as e:
                b = pickle.dumps((job, i, False, _mpp.MaybeEncodingError(e, res[1])), protocol=4)
            self._rq.put_bytes(b)
            C.sim_yield(0)
            done += 1

    # result collection and pool maintenance (real Pool: two threads)
    def _handle(self):
        while True:
            try:
                while True:
                    job, i, ok, val = self._rq.get(block=False)
                    if job in self._cache:
                        self._cache[job]._set(i, ok, val)
                    C.sim_yield(0)
            except queue.Empty:
                pass
            if self._state == TERMINATE:
                break
            for p in [p for p in self._pool if not P.sim_alive(p.sid)]:
                p.join()
                self._pool.remove(p)
            if self._state == RUN or self._cache:
                while len(self._pool) < self._n and self._state != TERMINATE:
                    self._spawn()
            elif self._state == CLOSE:
                while self._sent < self._n:
                    self._tq.put(None)
                    self._sent += 1
                if not self._pool:
                    break
            C.sim_block(self._rq.id, NS // 10, 0)
        self._fin = True
        P.sim_notify(self._finid, 0)

    def _submit(self, func, batches, star, single, cb=None, ecb=None, chunk=1):
        if self._state != RUN:
            raise ValueError("Pool not running")
        r = _Result(self, len(batches), chunk, single, cb, ecb)
        for i, b in enumerate(batches):
            C.sim_yield(0)
            try:
                raw = pickle.dumps((r._job, i, func, b, star, single), protocol=4)
            except Exception as e:
                r._set(i, False, e)
                continue
            self._tq.put_bytes(raw)
        return r

    def _chunks(self, it, chunksize):
        it = list(it)
        if chunksize is None:
            chunksize, extra = divmod(len(it), self._n * 4)
            if extra:
                chunksize += 1
        if not it:
            return []
        return [tuple(it[i:i + chunksize]) for i in range(0, len(it), chunksize)]

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, self._chunks(iterable, chunksize), False, False, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, self._chunks(iterable, chunksize), True, False, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._submit(func, [(tuple(args), dict(kwds))], False, True, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in iterable]
        return (r.get() for r in rs)

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in iterable]

        def gen():
            left = list(rs)
            while left:
                d = [r for r in left if r._done]
                if not d:
                    left[0].wait(0.05)
                    continue
                r = d[P.sim_rand(len(d))]
                left.remove(r)
                yield r.get()
        return gen()

    def close(self):
        if self._state == RUN:
            self._state = CLOSE
            P.sim_notify(self._rq.id, 0)
            C.sim_yield(0)

    def terminate(self):
        self._state = TERMINATE
        for p in list(self._pool):
            p.terminate()
        P.sim_notify(self._rq.id, 0)
        while not self._fin:
            C.sim_block(self._finid, -1, 0)
        for p in list(self._pool):
            p.terminate()

    def join(self):
        if self._state == RUN:
            raise ValueError("Pool is still running")
        while not self._fin:
            r = C.sim_block(self._finid, -1, 1 if P.sim_id() == 0 else 0)
            if r == W_INTR:
                P.sim_take_intr()
                P.sim_counter_add(CN_KI, 1)
                raise KeyboardInterrupt
        for p in list(self._pool):
            p.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")

# ---------------------------------------------------------------- multiprocessing.Manager
class _ManState:
    def __init__(self):
        self.down = mmap.mmap(-1, 64)

def _man_op(ms):
    C.sim_yield(0)
    n = P.sim_counter_add(CN_MANOPS, 1)
    if ST.man_fault is not None and n >= ST.man_fault and not ms.down[0]:
        ms.down[0] = 1
        P.sim_counter_add(CN_MANFAIL, 1)
        note("manager process dies")
    if ms.down[0]:
        raise EOFError("manager is gone")

class _ManQueue:
    def __init__(self, man, maxsize=0):
        self._manager = man
        self._ms = man._ms
        self._q = ShmQueue()

    def put(self, o, block=True, timeout=None):
        _man_op(self._ms)
        self._q.put(o)
        C.sim_yield(0)

    def put_nowait(self, o):
        self.put(o)

    def get(self, block=True, timeout=None):
        _man_op(self._ms)
        r = self._q.get(block, timeout)
        C.sim_yield(0)
        return r

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        _man_op(self._ms)
        r = self._q.qsize() == 0
        C.sim_yield(0)
        return r

    def qsize(self):
        _man_op(self._ms)
        return self._q.qsize()

    def full(self):
        return False

def _man_gone(pid):
    if os.getpid() == pid:
        P.sim_counter_add(CN_MANAGER, -1)

class SimManager:
    def __init__(self):
        _check_daemon()
        if _sys_fails("process for the manager"):
            raise _eagain()
        self._ms = _ManState()
        P.sim_counter_add(CN_MANAGER, 1)
        self._fin = weakref.finalize(self, _man_gone, os.getpid())
        self._fin.atexit = False
        C.sim_yield(0)

    def Queue(self, maxsize=0):
        _man_op(self._ms)
        return _ManQueue(self, maxsize)

    JoinableQueue = Queue

    def shutdown(self):
        self._ms.down[0] = 1
        self._fin()
        C.sim_yield(0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()

# ---------------------------------------------------------------- ProcessPoolExecutor
class SimProcessPoolExecutor(_cfb.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        if max_workers is None:
            max_workers = ST.cpu
        elif max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        if not P.sim_active():
            raise RuntimeError("simulated executor used outside the simulation")
        self._n = max_workers
        self._init = (initializer, tuple(initargs))
        self._procs = []
        self._pending = {}
        self._no = 0
        self._tq = ShmQueue()
        self._rq = ShmQueue()
        self._shut = False
        self._broken = False
        self._thread = None
        self._sent = False

    def _worker(self):
        if self._init[0]:
            self._init[0](*self._init[1])
        while True:
            C.sim_yield(0)
            t = self._tq.get(intr=1)
            if t is None:
                return
            no, fn, a, k = t
            C.sim_yield(0)
            P.sim_par(K_PROC, 1)
            try:
                if ST.slow:
                    sim_sleep(0.05)
                res = (no, True, fn(*a, **k))
            except BaseException as e:
                e.__traceback__ = None
                res = (no, False, e)
            finally:
                P.sim_par(K_PROC, -1)
            C.sim_yield(0)
            try:
                b = pickle.dumps(res, protocol=4)
            except Exception as e:
                b = pickle.dumps((no, False, e), protocol=4)
            self._rq.put_bytes(b)

    def _start(self):
        if self._thread is None:
            if _sys_fails("process"):
                raise _eagain()
            for _ in range(self._n):
                p = SimProcess(target=self._worker)
                p.start()
                self._procs.append(p)
            self._thread = threading.Thread(target=self._manage)
            self._thread._sim_own = True
            self._thread.start()

    def _manage(self):
        while True:
            try:
                while True:
                    no, ok, val = self._rq.get(block=False)
                    f = self._pending.pop(no, None)
                    if f is not None:
                        if ok:
                            f.set_result(val)
                        else:
                            f.set_exception(val)
                    C.sim_yield(0)
            except queue.Empty:
                pass
            dead = [p for p in self._procs if not P.sim_alive(p.sid)]
            if dead and not self._sent:
                self._broken = True
                for no in sorted(self._pending):
                    self._pending[no].set_exception(BrokenProcessPool(
                        "A process in the process pool was terminated abruptly while the future was running or pending."))
                self._pending.clear()
                for p in self._procs:
                    p.terminate()
                break
            if self._shut and not self._pending:
                if not self._sent:
                    self._sent = True
                    for _ in range(self._n):
                        self._tq.put(None)
                if len(dead) == len(self._procs):
                    break
            C.sim_block(self._rq.id, NS // 20, 0)
        for p in self._procs:
            p.join()

    def submit(self, fn, /, *args, **kwargs):
        if self._broken:
            raise BrokenProcessPool("pool is broken")
        if self._shut:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = _cfb.Future()
        no = self._no
        self._no += 1
        o = P.sim_counter_add(CN_TASKS, 1) - 1
        fn2 = fn
        try:
            raw = pickle.dumps((no, fn2, args, kwargs), protocol=4)
        except Exception as e:
            f.set_running_or_notify_cancel()
            f.set_exception(e)
            return f
        f.set_running_or_notify_cancel()
        # the real executor does this step under the lock that breaking the pool takes as well
        if self._broken:
            raise BrokenProcessPool("pool is broken")
        self._pending[no] = f
        self._tq.put_bytes(raw)
        self._start()
        C.sim_yield(0)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]

        def gen():
            for f in fs:
                yield f.result()
        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shut = True
        P.sim_notify(self._rq.id, 0)
        if wait and self._thread is not None:
            self._thread.join()

def sim_cpu_count():
    return ST.cpu

_real_cpu_count = os.cpu_count
mp.Pool = SimPool
_mpp.Pool = SimPool
mp.Manager = SimManager
mp.Process = SimProcess
mp.cpu_count = sim_cpu_count
os.cpu_count = sim_cpu_count
if hasattr(os, "sched_getaffinity"):
    _real_aff = os.sched_getaffinity
_cf.ProcessPoolExecutor = SimProcessPoolExecutor
import concurrent.futures.process as _cfp   # noqa: E402
_cfp.ProcessPoolExecutor = SimProcessPoolExecutor

class _Ctx:
    Pool = staticmethod(SimPool)
    Manager = staticmethod(SimManager)
    Process = SimProcess
    cpu_count = staticmethod(sim_cpu_count)
    RawArray = staticmethod(mp.RawArray)
    RawValue = staticmethod(mp.RawValue)

mp.get_context = lambda method=None: _Ctx()

# ---------------------------------------------------------------- numexpr, numpy
import numexpr as ne     # noqa: E402
import numpy as np       # noqa: E402

_ne_real_set = ne.set_num_threads
_ne_real_eval = ne.evaluate
_ne_real_set(1)

def sim_set_num_threads(n):
    if not P.sim_active() and not ST.in_worker:
        old, ST.ne_threads = ST.ne_threads, n
        return old
    C.sim_yield(0)
    if n > 64:
        raise ValueError("Number of threads cannot be larger than NUMEXPR_MAX_THREADS (64)")
    if n < 1:
        raise ValueError("Number of threads must be at least 1")
    old, ST.ne_threads = ST.ne_threads, n
    return old

def sim_evaluate(ex, local_dict=None, global_dict=None, *a, _frame_depth=3, **k):
    C.sim_yield(0)
    if ST.ne_history is not None and len(ST.ne_history) < 1000:
        ST.ne_history.append(ST.ne_threads)
    if ST.eval_fault is not None:
        ST.eval_fault -= 1
        if ST.eval_fault < 0:
            ST.eval_fault = None
            P.sim_counter_add(CN_TASKFAIL, 1)
            raise InjectedMemoryError("injected into numexpr")
    if local_dict is None:
        fr = sys._getframe(_frame_depth - 2)
        local_dict = fr.f_locals
        global_dict = fr.f_globals
    r = _ne_real_eval(ex, local_dict, global_dict, *a, **k)
    C.sim_yield(0)
    return r

State.eval_fault = None
ne.set_num_threads = sim_set_num_threads
ne.utils.set_num_threads = sim_set_num_threads
ne.evaluate = sim_evaluate
ne.detect_number_of_cores = sim_cpu_count

_np_empty, _np_empty_like = np.empty, np.empty_like

def _fill(a):
    if a.dtype.kind in "fiuc" and a.nbytes and P.sim_active() and a.flags.c_contiguous | a.flags.f_contiguous:
        P.sim_fill(a.ctypes.data, a.nbytes)
    return a

def sim_empty(*a, **k):
    return _fill(_np_empty(*a, **k))

def sim_empty_like(*a, **k):
    return _fill(_np_empty_like(*a, **k))

np.empty = sim_empty
np.empty_like = sim_empty_like

# ---------------------------------------------------------------- Python-level preemption
TOOL = 4
if os.environ.get("SIM_STACKS"):      # debugging: show where every process hangs
    import faulthandler
    import signal
    faulthandler.register(signal.SIGUSR1, all_threads=True)
_mon = sys.monitoring
_mon.use_tool_id(TOOL, "tomosim")
SRC = os.path.join(os.environ.get("SIM_REPO", "/repo"), "source", "tomopy") + os.sep

def _raise_now():
    P.sim_counter_add(CN_TASKFAIL, 1)
    raise EXC[ST.raise_exc]("injected at a line")

def _slow_line(code, line):
    k = (code, line)
    v = _slowmap.get(k)
    if v is None:
        seed, pm, _ = ST.slow_lines
        v = _slowmap[k] = zlib.crc32(("%s:%s:%d:%d" % (os.path.basename(code.co_filename), code.co_name, line - code.co_firstlineno, seed)).encode()) % 1000 < pm
    if v and ST.slow_left > 0:
        ST.slow_left -= 1
        sim_sleep(ST.slow_lines[2])

_slowmap = {}

def _on_line(code, line):
    if ST.slow_lines is not None:
        _slow_line(code, line)
    r = C.sim_yield(1)
    if r == F_RAISE:
        note("raises at", os.path.basename(code.co_filename), line)
        _raise_now()

def _on_c_return(code, off, fn, arg0):
    # an interrupt that arrives while native code runs is raised when that code has returned
    # (other calls are not used: the real interpreter may not look for signals there, or they are part of a clean-up)
    if (isinstance(fn, _Native) or type(fn) is _ufunc) and P.sim_pending_intr():
        P.sim_take_intr()
        P.sim_counter_add(CN_KI, 1)
        note("KeyboardInterrupt in native code called by", os.path.basename(code.co_filename), code.co_name)
        raise KeyboardInterrupt

def _on_instr(code, off):
    C.sim_yield(1)

import ctypes as _ctypes
from numpy import ufunc as _ufunc
_Native = _ctypes._CFuncPtr
_mon.register_callback(TOOL, _mon.events.LINE, _on_line)
_mon.register_callback(TOOL, _mon.events.C_RETURN, _on_c_return)
_mon.register_callback(TOOL, _mon.events.INSTRUCTION, _on_instr)
CODES = []          # code objects of the library (and of harness-side user functions)

def _walk(code, out, seen):
    if code in seen:
        return
    seen.add(code)
    out.append(code)
    for c in code.co_consts:
        if isinstance(c, type(code)):
            _walk(c, out, seen)

def collect_codes(extra=()):
    """every function of the library, nested ones included (sys.monitoring events stay local to them)"""
    import gc
    import types
    seen, out = set(), []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(SRC):
            _walk(o.__code__, out, seen)
    for f in extra:
        _walk(f.__code__, out, seen)
    out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    CODES[:] = out

def monitor(mode, ki=False):
    ev = _mon.events.CALL if ki else 0
    if mode >= 1:
        ev |= _mon.events.LINE
    if mode >= 2:
        ev |= _mon.events.INSTRUCTION
    for c in CODES:
        _mon.set_local_events(TOOL, c, ev)

def stats():
    names = ["steps", "switches", "preempts", "hash", "ev", "now", "sync", "line", "mem", "actors",
             "planner_conc", "bad_free", "overflow", "uaf", "nalloc", "nfree", "f_kill", "f_stall",
             "f_raise", "f_intr", "par_thread", "par_proc", "par_omp", "n_thread", "n_proc", "n_omp"]
    return {n: int(P.sim_stat(i)) for i, n in enumerate(names)}
