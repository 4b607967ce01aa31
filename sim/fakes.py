"""Stubs for things that are not in this sandbox: MPI, GPU toolboxes; and the faulty file layer."""
import builtins
import io
import os
import sys
import threading
import types

import numpy as np
import simrt as R

P, C = R.P, R.C


# ------------------------------------------------------------------ MPI: ranks are simulated threads
class World:
    def __init__(self, size):
        self.size = size
        self.local = threading.local()
        self.count = 0
        self.gen = 0
        self.id = R.local_id()
        self.entered = []
        self.left = []

    def Get_rank(self):
        C.sim_yield(0)
        return self.local.rank

    def Get_size(self):
        C.sim_yield(0)
        return self.size

    rank = property(Get_rank)
    size_ = property(Get_size)

    def Barrier(self):
        C.sim_yield(0)
        g = self.gen
        self.entered.append((P.sim_ev(), self.local.rank))
        self.count += 1
        if self.count == self.size:
            self.count = 0
            self.gen += 1
            P.sim_notify(self.id, 0)
        while self.gen == g:
            C.sim_block(self.id, -1, 0)
        self.left.append((P.sim_ev(), self.local.rank))

    barrier = Barrier


def install_mpi(size):
    w = World(size)
    m = types.ModuleType("mpi4py")
    sub = types.ModuleType("mpi4py.MPI")
    sub.COMM_WORLD = w
    m.MPI = sub
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = sub
    return w


# ------------------------------------------------------------------ GPU toolboxes
class Device:
    """busy bookkeeping shared by the two stubs"""
    def __init__(self):
        self.busy = {}
        self.clash = None
        self.runs = []
        self.fail = None
        self.failed = 0
        self.calls = 0          # toolbox calls that are not device runs
        self.cfail = None

    def call(self):
        C.sim_yield(0)
        k = self.calls
        self.calls += 1
        if self.cfail is not None and k == self.cfail:
            self.failed += 1
            raise R.InjectedRuntimeError("toolbox call failed")

    def run(self, dev, what, work):
        C.sim_yield(0)
        if self.busy.get(dev, 0):
            self.clash = "device %s runs two jobs at once" % (dev,)
        self.busy[dev] = self.busy.get(dev, 0) + 1
        self.runs.append((dev, what))
        k = len(self.runs) - 1
        try:
            R.sim_sleep((1 + P.sim_rand(50)) / 1000.0 if P.sim_active() else 0)
            if self.fail is not None and k == self.fail:
                self.failed += 1
                raise R.InjectedRuntimeError("device %s failed" % (dev,))
            work()
            C.sim_yield(0)
        finally:
            self.busy[dev] -= 1


def slice_model(sino, center, theta, gx, gy):
    """what both stubs compute for one slice: depends on the data, centre and angles of that slice"""
    s = np.asarray(sino, np.float64)
    k = np.outer(np.resize(s.sum(axis=0), gx) + 0.25 * float(center), np.resize((s.T * np.cos(theta)).T.sum(axis=0) + 1.0, gy))
    return k.astype(np.float32)


def install_astra(dev, postalign):
    m = types.ModuleType("astra")
    st = {"n": 0, "obj": {}}

    def new(o):
        dev.call()
        st["n"] += 1
        st["obj"][st["n"]] = o
        return st["n"]

    m.astra_dict = lambda name: {"type": name}
    m.create_vol_geom = lambda *a: {"grid": tuple(int(x) for x in (a[0] if len(a) == 1 else a))}
    m.create_proj_geom = lambda kind, w, n, th: {"ndet": n, "theta": np.array(th), "shift": 0.0}
    if postalign:
        def geom_postalignment(g, off):
            h = dict(g)
            h["shift"] = g["shift"] - float(off)
            return h
        m.geom_postalignment = geom_postalignment
    m.create_projector = lambda kind, pg, vg: new(("projector", kind, pg, vg))
    d2 = types.SimpleNamespace()
    d2.link = lambda kind, geom, arr: new((kind, geom, arr))

    def delete(i):
        C.sim_yield(0)
        if i not in st["obj"]:
            raise RuntimeError("stub: object deleted twice")
        del st["obj"][i]
    d2.delete = delete
    m.data2d = d2
    m.projector = types.SimpleNamespace(delete=delete)
    al = types.SimpleNamespace()
    al.create = lambda cfg: new(("alg", dict(cfg, option=dict(cfg.get("option", {})))))
    al.delete = delete

    def run(i, niter):
        _, cfg = st["obj"][i]
        _, kind, pg, vg = st["obj"][cfg["ProjectorId"]]
        _, pg2, sino = st["obj"][cfg["ProjectionDataId"]]
        _, vg2, vol = st["obj"][cfg["ReconstructionDataId"]]
        shift = pg2["shift"]
        if "option" in pg2 and "ExtraDetectorOffset" in pg2["option"]:
            shift = float(np.asarray(pg2["option"]["ExtraDetectorOffset"]).ravel()[0])

        def work():
            vol[...] = vol + niter * slice_model(sino, shift, pg2["theta"], *vol.shape) + np.float32(cfg["option"].get("MinConstraint", 0.0))
        dev.run(cfg["option"].get("GPUindex", "cpu"), None, work)
    al.run = run
    m.algorithm = al
    sys.modules["astra"] = m
    m._st = st
    return m


def install_lprec(dev):
    m = types.ModuleType("lprec")
    lt = types.ModuleType("lprec.lpTransform")
    lm = types.ModuleType("lprec.lpmethods")

    class lpTransform:
        def __init__(self, N, Nproj, Nslices, filter_name, cor, interp_type):
            self.cor = cor
            self.maxslices = Nslices
            dev.call()

        def precompute(self, flg):
            dev.call()

        def initcmem(self, flg, gpu):
            dev.call()

    lt.lpTransform = lpTransform

    def method(lp, init, tomo, num_iter, reg_par, gpu):
        out = np.array(init, copy=True)

        def work():
            for i in range(tomo.shape[0]):
                C.sim_yield(0)
                out[i] = init[i] + num_iter * slice_model(tomo[i], lp.cor, np.zeros(tomo.shape[1]), *init[i].shape)
        dev.run(gpu, None, work)
        return out
    for n in ("fbp", "grad", "cg", "tv", "em", "tve", "tvl1"):
        setattr(lm, n, method)
    m.lpTransform, m.lpmethods = lt, lm
    sys.modules["lprec"] = m
    sys.modules["lprec.lpTransform"] = lt
    sys.modules["lprec.lpmethods"] = lm
    return m


def install_ufo(dev):
    """the UFO framework: a scheduler that runs in the caller's thread and is fed by the wrapper's thread"""
    import ctypes
    import queue

    class Buf:
        def __init__(self, shape, arr=None):
            self.shape, self.arr, self.ptr = tuple(shape), arr, None

        def set_host_array(self, ptr, free):
            point()
            self.ptr = ptr

    point = dev.call    # the queues of the framework do not fail, the rest may

    class InputTask:
        def __init__(self):
            self.full, self.free, self.active, self.last = queue.Queue(), queue.Queue(), True, None

        def get_input_buffer(self):
            C.sim_yield(0)
            return self.free.get()

        def release_input_buffer(self, b):
            self.full.put(b)

        def stop(self):
            self.active = False
            self.full.put(None)

    class OutputTask:
        def __init__(self):
            self.full, self.free = queue.Queue(), queue.Queue()

        def get_output_buffer(self):
            C.sim_yield(0)
            return self.full.get()

        def release_output_buffer(self, b):
            self.free.put(b)

    class Task:
        def __init__(self, name):
            self.name, self.props = name, {}

        def set_properties(self, **k):
            self.props.update(k)

    class TaskGraph:
        def __init__(self):
            self.edges = []

        def connect_nodes(self, a, b):
            self.edges.append((a, b))

    class Scheduler:
        def __init__(self):
            self.props = types.SimpleNamespace(time=0.0)

        def run(self, g):
            C.sim_yield(0)
            nodes = [q for e in g.edges for q in e]
            i = [q for q in nodes if isinstance(q, InputTask)][0]
            o = [q for q in nodes if isinstance(q, OutputTask)][0]
            opt = {}
            for q in nodes:
                if isinstance(q, Task):
                    opt.update(q.props)
            cen = opt.get("axis_pos", opt.get("center_of_rotation"))
            while True:
                b = i.full.get()
                if not i.active:
                    return
                k = int(np.prod(b.shape))
                sino = np.array((ctypes.c_float * k).from_address(b.ptr)).reshape(b.shape)
                i.free.put(b)
                R.sim_sleep((1 + P.sim_rand(50)) / 1000.0 if P.sim_active() else 0)
                w = b.shape[1]
                m = int(opt.get("crop_width", 2 * w))
                img = np.zeros((m, m), np.float32)
                f = int(m / 2 - w / 2)
                img[f:f + w, f:f + w] = slice_model(sino, cen, np.arange(b.shape[0]) * opt["angle_step"], w, w)
                dev.runs.append((0, None))
                o.full.put(Buf(img.shape, img))
                C.sim_yield(0)
                o.free.get()

    def asarray(b):
        point()
        return b.arr

    def empty_like(a):
        point()
        return Buf(a.shape)
    Ufo = types.ModuleType("gi.repository.Ufo")
    Ufo.TaskGraph, Ufo.Scheduler, Ufo.InputTask, Ufo.OutputTask = TaskGraph, Scheduler, InputTask, OutputTask
    Ufo.PluginManager = lambda: types.SimpleNamespace(get_task=Task)
    gi, rep, ufo, unp = (types.ModuleType(n) for n in ("gi", "gi.repository", "ufo", "ufo.numpy"))
    gi.require_version = lambda *a: None
    gi.repository, rep.Ufo, ufo.numpy = rep, Ufo, unp
    unp.empty_like, unp.asarray = empty_like, asarray
    sys.modules.update({"gi": gi, "gi.repository": rep, "gi.repository.Ufo": Ufo, "ufo": ufo, "ufo.numpy": unp})


# ------------------------------------------------------------------ files
class Disk:
    """Faults of the simulated disk: {"at": n-th raw operation, "what": "eio"|"enospc"|"short"}; space: bytes left"""
    def __init__(self):
        self.ops = 0
        self.faults = []
        self.space = None
        self.fired = {}
        self.by = {}        # hard failures per actor
        self.closed = {}    # files written and closed without a failure: their content

    def hit(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1
        if what != "short":
            self.by[P.sim_id()] = self.by.get(P.sim_id(), 0) + 1
        P.sim_counter_add(R.CN_IOFAIL, 1)


DISK = Disk()


class FaultyRaw(io.FileIO):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.wrote, self.failed = False, False
        DISK.closed.pop(os.path.abspath(str(self.name)), None)

    def close(self):
        done = self.wrote and not self.failed and not self.closed
        super().close()
        if done:
            f = os.path.abspath(str(self.name))
            with _real_open(f, "rb") as h:
                DISK.closed[f] = h.read()

    def write(self, b):
        self.wrote = True
        try:
            return self._write(b)
        except BaseException:
            self.failed = True
            raise

    def _write(self, b):
        C.sim_yield(0)
        P.sim_counter_add(R.CN_IO, 1)
        n = DISK.ops
        DISK.ops += 1
        b = bytes(b)
        for f in DISK.faults:
            if f["at"] == n:
                if f["what"] == "short" and len(b) > 1:
                    DISK.hit("short")
                    b = b[:max(1, len(b) // 2)]
                elif f["what"] == "eio":
                    DISK.hit("eio")
                    raise OSError(5, "Input/output error (injected)")
                elif f["what"] == "enospc":
                    DISK.hit("enospc")
                    raise OSError(28, "No space left on device (injected)")
                elif f["what"] == "eintr_zero":
                    pass
        if DISK.space is not None:
            if DISK.space <= 0:
                DISK.hit("full")
                raise OSError(28, "No space left on device (injected)")
            if len(b) > DISK.space:
                DISK.hit("short")
                b = b[:DISK.space]
            DISK.space -= len(b)
        r = super().write(b)
        C.sim_yield(0)
        return r


class NoFd:
    """hides the descriptor, so that every byte passes through write()"""
    def __init__(self, f):
        self._f = f

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __iter__(self):
        return iter(self._f)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()


_real_open = builtins.open


def faulty_open(name, mode="r", buffering=-1, *a, **k):
    if P.sim_active() and "b" in mode and any(c in mode for c in "wax+") and isinstance(name, (str, os.PathLike)):
        C.sim_yield(0)
        for f in DISK.faults:
            if f["at"] == DISK.ops and f["what"] == "open":
                DISK.hit("open")
                DISK.ops += 1
                raise OSError(13, "Permission denied (injected)")
        raw = FaultyRaw(name, mode.replace("b", ""))
        if "+" in mode:
            return NoFd(io.BufferedRandom(raw, 64))
        return NoFd(io.BufferedWriter(raw, 64))
    return _real_open(name, mode, buffering, *a, **k)


def install_disk():
    builtins.open = faulty_open
    import tifffile
    try:
        import tifffile.tifffile as tt
    except ImportError:
        tt = tifffile
    tt.open = faulty_open
    real_exists, real_mkdir = os.path.exists, os.mkdir

    def exists(p):
        r = real_exists(p)
        C.sim_yield(0)
        return r

    def mkdir(*a, **k):
        C.sim_yield(0)
        r = real_mkdir(*a, **k)
        C.sim_yield(0)
        return r
    os.path.exists = exists
    os.mkdir = mkdir
    return DISK
