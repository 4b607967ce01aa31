"""Zygote: imports the library once (calling none of it), then forks one child per scenario."""
import json
import os
import resource
import select
import signal
import sys
import ctypes

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
OUT = os.dup(1)
os.dup2(2, 1)
import simrt as R            # noqa: E402
import numpy as np           # noqa: E402,F401
import core                  # noqa: E402
import ops                   # noqa: E402
import props                 # noqa: E402
import gc                    # noqa: E402

P = R.P
WALL = float(os.environ.get("SIM_WALL", "90"))
V_OK, V_DEADLOCK, V_VTIME, V_STEPS, V_ABORT, V_CRASH = 1, 2, 3, 4, 5, 6


def child(job, fd):
    code = 0
    res = {}
    try:
        os.setpgid(0, 0)
        dn = os.open("/dev/null", os.O_RDWR)
        os.dup2(dn, 0)
        if not os.environ.get("SIM_VERBOSE"):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        sc = job["sc"]
        core.TRACE[0] = job.get("trace")
        R.ST.notes = []
        try:
            info = props.run(sc) or {}
            res = {"r": "ok", "info": info}
        except core.Viol as v:
            P.sim_stop(1)
            res = {"r": "viol", "cls": v.cls, "msg": v.msg}
        res["stats"] = R.stats()
        res["cn"] = {k: int(P.sim_counter_get(i)) for k, i in (("tasks", R.CN_TASKS), ("taskfail", R.CN_TASKFAIL),
                     ("man", R.CN_MANFAIL), ("io", R.CN_IO), ("iofail", R.CN_IOFAIL), ("ki", R.CN_KI), ("eval", R.CN_EVAL), ("sys", R.CN_SYSFAIL))}
        if res["r"] == "viol" or job.get("notes"):
            res["notes"] = R.ST.notes[:60]
    except BaseException:
        import traceback
        P.sim_stop(1)
        res = {"r": "err", "msg": traceback.format_exc()[-3000:]}
        code = 3
    finally:
        b = json.dumps(res).encode()
        off = 0
        while off < len(b):
            off += os.pwrite(fd, b[off:], off)
        os._exit(code)


def reap():
    while True:
        try:
            p, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            return
        if p == 0:
            return


def one(job):
    P.sim_reset()
    fd = os.memfd_create("res")
    pid = os.fork()
    if pid == 0:
        child(job, fd)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    pfd = os.pidfd_open(pid)
    ok = select.select([pfd], [], [], WALL)[0]
    os.close(pfd)
    if not ok:
        if os.environ.get("SIM_STUCK"):
            os.system("grep -H . /proc/%d/status /proc/%d/wchan | head -60 >&2; sleep 1000" % (pid, pid))
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    reap()
    n = os.fstat(fd).st_size
    raw = os.pread(fd, n, 0) if n else b""
    os.close(fd)
    res = None
    if raw:
        try:
            res = json.loads(raw)
        except ValueError:
            res = None
    if res is None:
        v = P.sim_verdict()
        msg = P.sim_msg().decode("utf-8", "replace")
        phase = int(P.sim_counter_get(R.CN_PHASE))
        where = " (in the one-core reference call)" if phase == 1 else ""
        if not ok:
            res = {"r": "stuck", "msg": "no progress for %d s of real time%s" % (WALL, where)}
        elif v in (V_DEADLOCK, V_VTIME, V_STEPS):
            res = {"r": "viol", "cls": "hang", "msg": msg + where}
        elif v == V_CRASH or os.WIFSIGNALED(st):
            res = {"r": "viol", "cls": "crash", "msg": (msg or "process ended by signal %d" % os.WTERMSIG(st)) + where}
        else:
            res = {"r": "err", "msg": "child ended with status %d verdict %d %s" % (st, v, msg)}
        res["stats"] = R.stats()
        res["cn"] = {}
    if job.get("want_trace") and res["r"] == "viol":
        m = P.sim_trace_len()
        if not P.sim_trace_over():
            res["trace"] = [[int(P.sim_trace_ev(i)), int(P.sim_trace_to(i)), int(P.sim_trace_pre(i))] for i in range(m)]
    return res


def main():
    core_no = int(os.environ.get("SIM_CORE", "-1"))
    if core_no >= 0:
        try:
            avail = sorted(R._real_aff(0))
            os.sched_setaffinity(0, {avail[core_no % len(avail)]})
        except OSError:
            pass
    import tempfile
    os.environ["SIM_SCRATCH"] = tempfile.mkdtemp(prefix="tomosim-")
    import atexit
    import shutil
    atexit.register(shutil.rmtree, os.environ["SIM_SCRATCH"], True)
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    P.sim_map()
    R.collect_codes(props.EXTRA)
    gc.collect()
    gc.disable()
    gc.freeze()
    inp = os.fdopen(0, "rb", closefd=False)
    for line in inp:
        job = json.loads(line)
        res = one(job)
        res["id"] = job["id"]
        b = (json.dumps(res) + "\n").encode()
        while b:
            b = b[os.write(OUT, b):]


if __name__ == "__main__":
    main()
