"""Builds libsim and the instrumented libtomo libraries from /repo's working tree."""
import hashlib, os, shutil, subprocess, sys, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PY = "/opt/venv/bin/python"


def _files():
    out = []
    for top in ("CMakeLists.txt", "cmake", "include", "source/CMakeLists.txt", "source/libtomo"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(p)
        for d, dd, ff in os.walk(p):
            dd.sort()
            out += [os.path.join(d, f) for f in sorted(ff)]
    out += [os.path.join(HERE, f) for f in ("libsim.c", "simcc", "simheap.h", "build.py")]
    return out


def tree_hash():
    h = hashlib.sha256(REPO.encode())
    for f in _files():
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            pass
    return h.hexdigest()[:20]


def build(log=sys.stderr):
    """Returns the directory with libsim.so and libtomo-*.so for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    out = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        for d in os.listdir(BUILD):          # keep only the newest two trees
            p = os.path.join(BUILD, d)
            if os.path.isdir(p) and d != key:
                if len([x for x in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, x))]) > 2:
                    shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        env = dict(os.environ)
        env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        env["SIM_LIBDIR"] = out
        for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_LIBRARY_PATH", "LD_PRELOAD"):
            env.pop(k, None)

        def run(*cmd):
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                log.write(r.stdout[-6000:] + "\n")
                raise RuntimeError("build failed: " + " ".join(cmd[:3]))

        run("/usr/bin/gcc", "-O2", "-g", "-fPIC", "-shared", "-o", out + "/libsim.so",
            os.path.join(HERE, "libsim.c"), "-lpthread", "-ldl")
        cb = os.path.join(out, "cmake")
        run("cmake", "-S", REPO, "-B", cb, "-GNinja", "-DCMAKE_BUILD_TYPE=Release",
            "-DTOMOPY_USE_MKL=OFF", "-DTOMOPY_USE_CUDA=OFF", "-DTOMOPY_USE_OPENCV=OFF",
            "-DPYTHON_EXECUTABLE=" + PY, "-DCMAKE_C_COMPILER=" + os.path.join(HERE, "simcc"))
        run("cmake", "--build", cb)
        n = 0
        for d, _, ff in os.walk(cb):
            for f in ff:
                if f.startswith("libtomo-") and f.endswith(".so"):
                    shutil.copy(os.path.join(d, f), os.path.join(out, f))
                    n += 1
        if n < 4:
            raise RuntimeError("build produced %d libraries" % n)
        shutil.rmtree(cb, ignore_errors=True)
        open(os.path.join(out, "ok"), "w").close()
    return out


if __name__ == "__main__":
    print(build())
