"""Catalogue of library operations the simulated workloads are made of.

Every operation knows how to generate JSON parameters, build its input arrays, make the call
with a given core count and chunk size, and cut inputs and outputs into single units (slice,
projection, image) so that "this unit processed alone on one core" is a reference.
"""
import os

import numpy as np

if os.environ.get("SIM_LIBDIR"):        # the driver only generates parameters and never imports the library
    import simrt as R
    import tomopy
    from tomopy.prep.alignment import detector_drift_adjust_aps_1id

f32 = np.float32


def rs(seed, k=0):
    return np.random.RandomState((seed * 7919 + k * 104729 + 13) % (2 ** 31))


def field(seed, shape, k=0, lo=0.2, hi=1.2):
    """positive data; units differ clearly but have the same magnitude"""
    return (lo + (hi - lo) * rs(seed, k).rand(*shape)).astype(f32)


def spice(x, seed, axis, kinds=("zero", "zero", "edges", "negedges", "neg", "const", "all", "rows", "nan", "inf", "big")):
    """in a quarter of the data sets: units that are empty, constant, negative, partly zero or not finite, as detectors give them"""
    r = rs(seed, 77)
    if r.rand() > 0.25 or x.dtype.kind != "f":
        return x
    how = kinds[r.randint(len(kinds))]
    v = np.moveaxis(x, axis, 0)
    which = r.rand(v.shape[0]) < 0.4
    which[r.randint(len(which))] = True
    for i in np.flatnonzero(which):
        u = v[i]
        if how == "zero":
            u[...] = 0
        elif how == "const":
            u[...] = 0.5
        elif how == "edges":
            u[..., :3] = 0
            u[..., -3:] = 0
        elif how == "negedges":
            u[..., :3] *= -1
            u[r.randint(u.shape[0]), -3:] = 0
        elif how == "neg":
            u -= 0.7
        elif how == "rows":
            u[r.rand(u.shape[0]) < 0.5] = 0
        elif how in ("nan", "inf"):
            u[tuple(r.randint(k) for k in u.shape)] = np.nan if how == "nan" else np.inf
        elif how == "big":
            u *= 30
    if how == "all":
        x[...] = 0
    return x


def take_axis(x, axis, i, keep=True):
    if x is None:
        return None
    s = [slice(None)] * x.ndim
    s[axis] = slice(i, i + 1) if keep else i
    return x[tuple(s)]


class Op:
    name = ""
    kind = "pure"            # thread | proc | omp | ppe | pure
    exact = True
    rtol = 2e-5
    common = False           # rounding errors are relative to the whole volume
    units = True             # result can be decomposed into single units
    mutates = ()             # inputs the operation is documented (or known) to change
    chunked = True           # accepts nchunk
    heavy = 1.0
    inaxis = 0
    outaxis = 0
    unit_inputs = ("x",)

    def gen(self, r):
        return {}

    def unitary(self, p):
        """can a unit processed alone serve as the reference"""
        return self.units

    def data(self, p):
        raise NotImplementedError

    def n(self, p, a):
        return a[self.unit_inputs[0]].shape[self.axis(p, self.unit_inputs[0])]

    def axis(self, p, name):
        return self.inaxis

    def oaxis(self, p):
        return self.outaxis

    def unit(self, p, a, i):
        b = dict(a)
        for k in self.unit_inputs:
            if b.get(k) is not None:
                b[k] = take_axis(b[k], self.axis(p, k), i).copy()
        return b

    def pick(self, p, res, i):
        return take_axis(res, self.oaxis(p), i)

    def call(self, p, a, nc, nch):
        raise NotImplementedError

    def cap(self, nc, cpu, env):
        c = cpu if nc is None else nc
        return c

    def pieces(self, p, a, nc, nch):
        return self.n(p, a)


OPS = {}


def reg(c):
    OPS[c.name] = c()
    return c


# ------------------------------------------------------------------ reconstruction
RECON = {
    "art": ("iter",), "bart": ("iter", "block"), "fbp": ("ffilter",), "gridrec": ("gfilter",),
    "mlem": ("iter",), "osem": ("iter", "block"), "ospml_hybrid": ("iter", "reg2", "block"),
    "ospml_quad": ("iter", "reg1", "block"), "pml_hybrid": ("iter", "reg2"), "pml_quad": ("iter", "reg1"),
    "sirt": ("iter",), "tv": ("iter", "regs"), "grad": ("iter", "regs"), "tikh": ("iter", "tikh"),
}
GFILT = ["none", "shepp", "cosine", "hann", "hamming", "ramlak", "parzen", "butterworth", "custom", "custom2d"]


FINITE = ("zero", "zero", "edges", "negedges", "neg", "const", "all", "rows", "big")
ALLK = FINITE + ("nan", "inf")


class Recon(Op):
    kind = "thread"
    spices = ALLK

    def __init__(self):
        self.exact = self.alg != "gridrec"
        self.rtol = 3e-4 if self.alg == "gridrec" else 2e-5
        if self.alg == "gridrec":
            # two slices go through one complex transform
            self.spices, self.common = FINITE, True

    def gen(self, r):
        f = RECON[self.alg]
        p = {"ds": r.randrange(1 << 20), "n": r.choice([1, 2, 3, 3, 4, 5, 5, 6, 7, 9, 11, 13, 20]),
             "nang": r.choice([1, 2, 3, 5, 6, 8]), "dx": r.choice([5, 7, 8, 10, 12, 16]),
             "so": r.random() < 0.5, "cen": r.choice(["none", "scalar", "pyfloat", "list", "array", "array", "array"]),
             "init": r.random() < 0.35, "th": r.choice(["even", "even", "uneven", "f64", "list", "wide"]),
             "xdt": r.choice(["f4", "f4", "f4", "f8", "u2"]), "dflt": r.random() < 0.2}
        if self.alg == "gridrec":
            p["init"] = False
            p["dx"] = r.choice([5, 8, 10, 12, 15, 16, 17, 20])
            p["filter"] = r.choice(GFILT)
            p["grid"] = r.choice([0, 0, 0, -2, -3, 1, 4]) if p["dx"] > 6 else 0
        else:
            if r.random() < 0.35:
                p["gx"] = r.choice([4, 6, 8, 9])
                p["gy"] = r.choice([4, 6, 8, 9])
            if self.alg == "fbp":
                p["filter"] = r.choice([f for f in GFILT if not f.startswith("custom")])
            if "iter" in f:
                p["iter"] = r.choice([1, 1, 2, 3])
            if "block" in f:
                p["block"] = r.choice([1, 1, 2, 3])
                p["block"] = min(p["block"], p["nang"])
            if "regs" in f or "reg1" in f or "reg2" in f:
                p["reg"] = r.choice([0.1, 0.5, 1.0])
            if self.alg == "grad":
                p["reg"] = r.choice([-1, 0.01])
            if self.alg == "tikh":
                p["reg"] = r.choice([-1, 0.01])
                p["reg2"] = r.choice([0.1, 0.5])
                p["regdata"] = r.random() < 0.7
            p["sq"] = r.random() < 0.3
        if p["dflt"]:
            # rely on the defaults of the algorithm
            for k in r.sample(["iter", "block", "reg", "filter"], r.choice([1, 2, 4])):
                if k != "reg" or self.alg != "tikh":
                    p.pop(k, None)
            p.pop("grid", None)
        if self.alg == "tikh" and not p["regdata"]:
            p.pop("gx", None)
            p.pop("gy", None)
        return p

    def data(self, p):
        n, nang, dx = p["n"], p["nang"], p["dx"]
        t = spice(field(p["ds"], (n, nang, dx), 1), p["ds"], 0, self.spices)
        if not p["so"]:
            t = np.ascontiguousarray(np.swapaxes(t, 0, 1))
        c = None
        r = rs(p["ds"], 2)
        if p["cen"] == "scalar":
            c = f32(dx / 2. + r.uniform(-1.5, 1.5))
        elif p["cen"] == "pyfloat":
            c = float(dx / 2. + round(r.uniform(-1.5, 1.5), 2))
        elif p["cen"] in ("array", "list"):
            c = (dx / 2. + r.uniform(-1.5, 1.5, n)).astype(f32)
            if r.rand() < 0.3:
                c[1:] = c[0]
            elif r.rand() < 0.4:
                # several slices share a center, in groups of any size
                c[r.rand(n) < 0.5] = c[0]
            elif r.rand() < 0.3:
                # neighbours nearly share a center
                c = (c[0] + f32(0.03) * r.randint(0, 3, n)).astype(f32)
            if p["cen"] == "list":
                c = [float(v) for v in c]
        gx, gy = self.grid(p)
        if p.get("xdt") == "f8":
            t = t.astype("f8")
        elif p.get("xdt") == "u2":
            t = (np.clip(np.nan_to_num(t), 0, 60) * 1000).astype("u2")
        th = tomopy.angles(nang, 0, 170.).astype(f32)
        if p.get("th") == "uneven":
            th = np.sort(r.uniform(0, 3.1, nang)).astype(f32)
        elif p.get("th") == "f64":
            th = tomopy.angles(nang, 3, 175.).astype("f8")
        elif p.get("th") == "list":
            th = [float(v) for v in tomopy.angles(nang, 3, 175.)]
        elif p.get("th") == "wide":
            th = r.permutation(np.linspace(-4, 7, nang)).astype(f32)
        a = {"x": t, "theta": th, "center": c, "init": None, "regdata": None}
        self.extra(p, a)
        if p["init"]:
            a["init"] = field(p["ds"], (n, gx, gy), 3, 0.3, 0.9)
        if p.get("regdata"):
            a["regdata"] = field(p["ds"], (n, gx, gy), 4, 0.1, 0.5)
        return a

    def grid(self, p):
        if self.alg == "gridrec":
            g = p["dx"] + p.get("grid", 0)
            return g, g
        return p.get("gx", p["dx"]), p.get("gy", p["dx"])

    unit_inputs = ("x", "center", "init", "regdata")

    def axis(self, p, name):
        return (0 if p["so"] else 1) if name == "x" else 0

    def unit(self, p, a, i):
        b = dict(a)
        for k in self.unit_inputs:
            if isinstance(b.get(k), list):
                b[k] = b[k][i:i + 1]
            elif b.get(k) is not None and np.ndim(b[k]):
                b[k] = take_axis(b[k], self.axis(p, k), i).copy()
        return b

    def extra(self, p, a):
        """arrays passed by keyword"""
        r = rs(p["ds"], 5)
        if "block" in p:
            a["ind_block"] = r.permutation(p["nang"]).astype(np.int32)
            if r.rand() < 0.3:
                a["ind_block"] = a["ind_block"].astype(r.choice(["f4", "i8", "f8", "u2"]))
            if r.rand() < 0.15:
                a["ind_block"] = None
        if str(p.get("filter")).startswith("custom"):
            pd = 16
            while pd < max(p["dx"], self.grid(p)[0]):
                pd *= 2
            w = 0.2 + rs(p["ds"], 6).rand(p["nang"], pd // 2)
            a["filter_par"] = (w if p["filter"] == "custom2d" else w[0]).astype(f32)
            if p.get("th") == "uneven":
                a["filter_par"] = a["filter_par"].ravel()
        if "reg" in p:
            m = np.full(10, p["reg"], f32) if p["ds"] % 3 else np.array([p["reg"]], f32)
            if "reg2" in RECON.get(self.alg, ()):
                m = np.array([p["reg"], 0.1 + 0.9 * r.rand()], f32)
            if self.alg == "tikh":
                m = np.array([p["reg"], p["reg2"]], f32)
            a["reg_par"] = m

    def kwargs(self, p, a):
        gx, gy = self.grid(p)
        k = {}
        if "gx" in p or p.get("grid"):
            k["num_gridx"], k["num_gridy"] = gx, gy
            if p.get("sq") and gx == p["dx"]:
                del k["num_gridx"]
        if "iter" in p:
            k["num_iter"] = p["iter"]
        if "block" in p:
            k["num_block"] = p["block"]
        if "filter" in p:
            k["filter_name"] = p["filter"]
        for key in ("ind_block", "filter_par", "reg_par"):
            if a.get(key) is not None:
                k[key] = a[key]
        if a.get("regdata") is not None:
            k["reg_data"] = a["regdata"]
        return k

    def call(self, p, a, nc, nch):
        init = a["init"]
        return tomopy.recon(a["x"], a["theta"], center=a["center"], sinogram_order=p["so"],
                            algorithm=self.alg, init_recon=init, ncore=nc, nchunk=nch, **self.kwargs(p, a))


for _a in RECON:
    reg(type("Recon_" + _a, (Recon,), {"alg": _a, "name": "recon_" + _a}))


def _user_alg(tomo, center, recon, theta, num_gridx=None, num_gridy=None, options=None, accelerated=False, scale=1.0):
    """a caller-supplied reconstruction: depends on every input of every slice"""
    for i in range(tomo.shape[0]):
        s = tomo[i].sum(axis=0) * f32(scale) + f32(center[i])
        recon[i] += (np.resize(s, num_gridx)[:, None] + np.resize(s[::-1], num_gridy)[None, :]) * f32(len(theta))


class ReconCallable(Recon):
    alg = "callable"

    def extra(self, p, a):
        pass

    exact = True
    name = "recon_callable"

    def __init__(self):
        pass

    def gen(self, r):
        p = {"ds": r.randrange(1 << 20), "n": r.choice([1, 2, 3, 4, 5, 6, 7, 9]), "nang": r.choice([2, 3, 5]),
             "dx": r.choice([5, 8]), "so": r.random() < 0.5, "cen": r.choice(["none", "array", "array"]),
             "init": r.random() < 0.5, "scale": r.choice([0.5, 2.0])}
        if r.random() < 0.4:
            p["gx"], p["gy"] = r.choice([4, 6]), r.choice([4, 7])
        return p

    accel = False

    def call(self, p, a, nc, nch):
        k = {"scale": p["scale"]}
        if "gx" in p:
            k["num_gridx"], k["num_gridy"] = p["gx"], p["gy"]
        if self.accel:
            k["accelerated"] = True
        init = a["init"]
        return tomopy.recon(a["x"], a["theta"], center=a["center"], sinogram_order=p["so"], algorithm=_user_alg,
                            init_recon=init, ncore=nc, nchunk=nch, **k)


reg(ReconCallable)


@reg
class ReconAccel(ReconCallable):
    name = "recon_accel"
    kind = "ppe"
    accel = True


# ------------------------------------------------------------------ process-distributed preprocessing
class Sino(Op):
    """stripe removers: one unit = one sinogram tomo[:, i, :]"""
    kind = "proc"
    inaxis = outaxis = 1
    kw = {}
    f64 = False
    spices = ALLK

    def fn(self):
        return getattr(tomopy, self.name)

    def gen(self, r):
        p = {"ds": r.randrange(1 << 20), "n": r.choice([1, 2, 3, 4, 5, 6, 7, 7, 12, 20, 24]), "nang": r.choice([8, 9, 12, 17]),
             "dx": r.choice([8, 11, 16, 21]), **self.par(r)}
        if r.random() < 0.3:
            # rely on some or all of the defaults
            k = [k for k in p if k not in ("ds", "n", "nang", "dx")]
            for q in r.sample(k, r.randint(1, len(k))) if k else ():
                del p[q]
        return p

    def par(self, r):
        return {}

    def unitary(self, p):
        # the default level is derived from the longest side of the volume
        return not (self.name == "remove_stripe_fw" and p.get("level") is None and p["n"] > max(p["nang"], p["dx"]))

    def data(self, p):
        t = field(p["ds"], (p["nang"], p["n"], p["dx"]), 1)
        r = rs(p["ds"], 2)
        for i in range(p["n"]):
            t[:, i, r.randint(p["dx"])] *= f32(r.uniform(1.3, 1.8))
        return {"x": spice(t, p["ds"], 1, self.spices)}

    def keys(self, p):
        return {k: (tuple(v) if isinstance(v, list) else v) for k, v in p.items() if k not in ("ds", "n", "nang", "dx")}

    def call(self, p, a, nc, nch):
        return self.fn()(a["x"], ncore=nc, nchunk=nch, **self.keys(p))


def _sino(nm, par):
    reg(type("Sino_" + nm, (Sino,), {"name": nm, "par": lambda self, r: par(r)}))


_sino("remove_stripe_fw", lambda r: {"level": r.choice([None, 1, 2, 3]), "wname": r.choice(["db5", "db2", "haar", "sym3"]),
                                     "sigma": r.choice([1, 2, 4]), "pad": r.random() < 0.5})
_sino("remove_stripe_ti", lambda r: {"nblock": r.choice([0, 0, 1, 2, 3]), "alpha": r.choice([0.5, 1.5, 2.0])})
_sino("remove_stripe_sf", lambda r: {"size": r.choice([1, 3, 5, 7])})
_sino("remove_stripe_based_sorting", lambda r: {"size": r.choice([None, 3, 5]), "dim": r.choice([1, 2])})
_sino("remove_stripe_based_filtering", lambda r: {"sigma": r.choice([2, 3]), "size": r.choice([None, 3, 5]), "dim": r.choice([1, 2])})
_sino("remove_stripe_based_fitting", lambda r: {"order": r.choice([1, 2, 3]), "sigma": r.choice([[5, 20], [3, 8]])})
_sino("remove_large_stripe", lambda r: {"drop_ratio": r.choice([0.0, 0.1, 0.3]), "snr": r.choice([1.5, 3]), "size": r.choice([5, 9]), "norm": r.random() < 0.5})
_sino("remove_dead_stripe", lambda r: {"snr": r.choice([1.5, 3]), "size": r.choice([5, 9]), "norm": r.random() < 0.5})
_sino("remove_all_stripe", lambda r: {"snr": r.choice([1.5, 3]), "la_size": r.choice([5, 9]), "sm_size": r.choice([3, 5]), "dim": r.choice([1, 2])})
_sino("remove_stripe_based_interpolation", lambda r: {"drop_ratio": r.choice([0.0, 0.1, 0.3]), "snr": r.choice([1.5, 3]), "size": r.choice([5, 9]), "norm": r.random() < 0.5})


# (constant data keeps its conjugate gradients busy for a million iterations)
OPS["remove_stripe_ti"].spices = ("neg", "edges", "negedges", "big")


class Proj(Op):
    """one unit = one projection tomo[i]"""
    kind = "proc"
    spices = ALLK

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "n": r.choice([1, 2, 3, 4, 5, 6, 7, 9, 13, 20]), "dy": r.choice([4, 6, 8]),
                "dx": r.choice([6, 8, 11]), **self.par(r)}

    def par(self, r):
        return {}

    def data(self, p):
        return {"x": spice(field(p["ds"], (p["n"], p["dy"], p["dx"]), 1), p["ds"], 0, self.spices)}


@reg
class NormalizeRoi(Proj):
    name = "normalize_roi"
    chunked = False

    def par(self, r):
        return {"roi": r.choice([None, [r.choice([0, 1]), r.choice([0, 1]), r.choice([2, 3, 4]), r.choice([3, 5])],
                                 [r.choice([0, 2]), r.choice([0, 3]), 4, r.choice([5, 20])]])}

    def data(self, p):
        a = Proj.data(self, p)
        r = rs(p["ds"], 3)
        if r.rand() < 0.25:
            # projections in which the whole window is dark
            y0, x0, y1, x1 = p["roi"] or [0, 0, 10, 10]
            for i in np.flatnonzero(r.rand(p["n"]) < 0.5):
                a["x"][i, y0:y1, x0:x1] = 0
        a["roi"] = None if p["roi"] is None else list(p["roi"])
        return a

    def call(self, p, a, nc, nch):
        if a["roi"] is None:
            return tomopy.normalize_roi(a["x"], ncore=nc)
        return tomopy.normalize_roi(a["x"], roi=a["roi"], ncore=nc)


@reg
class NormalizeBg(Proj):
    name = "normalize_bg"

    def par(self, r):
        return {"air": r.choice([1, 2, 3])}

    def call(self, p, a, nc, nch):
        return tomopy.normalize_bg(a["x"], air=p["air"], ncore=nc, nchunk=nch)


@reg
class RetrievePhase(Proj):
    name = "retrieve_phase"

    def par(self, r):
        return {"pad": r.random() < 0.8, "alpha": r.choice([1e-4, 1e-3, 1e-2]), "dist": r.choice([5, 20, 50]), "energy": r.choice([10, 20, 35]),
                "px": r.choice([1e-4, 1e-3])}

    def data(self, p):
        a = Proj.data(self, p)
        # the padding value is a mean over all projections; it is overwritten by edge values,
        # so every projection depends on itself only
        return a

    exact = False

    def call(self, p, a, nc, nch):
        return tomopy.retrieve_phase(a["x"], pixel_size=p["px"], dist=p["dist"], energy=p["energy"], alpha=p["alpha"], pad=p["pad"],
                                     ncore=nc, nchunk=nch)


@reg
class Distortion(Proj):
    name = "distortion_correction_proj"

    def par(self, r):
        return {"f": r.choice([[1.0, r.choice([0.01, -0.01]), 1e-4], [0.9], [1.1, 0.02], [1.0, 0, 0, 1e-5, -1e-6]]),
                "cx": r.choice([0.5, 0.3, 0.0, 1.2]), "cy": r.choice([0.5, 0.7, 0.0])}

    def data(self, p):
        return dict(Proj.data(self, p), f=list(p["f"]))

    def call(self, p, a, nc, nch):
        return tomopy.distortion_correction_proj(a["x"], p["dx"] * p["cx"], p["dy"] * p["cy"], a["f"], ncore=nc, nchunk=nch)


@reg
class Project(Op):
    name = "project"
    kind = "proc"
    unit_inputs = ("x", "center")

    def gen(self, r):
        p = {"ds": r.randrange(1 << 20), "n": r.choice([1, 2, 3, 4, 5, 7, 11, 17]), "ox": r.choice([4, 6, 7, 9]),
             "nang": r.choice([1, 2, 4]), "cen": r.choice(["none", "scalar", "array", "array"]), "emission": r.random() < 0.7,
             "pad": r.random() < 0.7, "so": r.random() < 0.5, "xdt": r.choice(["f4", "f4", "f8", "u2"])}
        p["oz"] = r.choice([p["ox"], p["ox"], 5, 8])
        p["dflt"] = r.random() < 0.15
        return p

    def data(self, p):
        ox, oz = p["ox"], p["oz"]
        dx = ox if not p["pad"] else int(np.ceil((np.sqrt(1.0 * ox * ox + oz * oz) + 2) / 2.) * 2)
        c = None
        r = rs(p["ds"], 2)
        if p["cen"] == "array":
            c = (dx / 2. + r.uniform(-1.5, 1.5, p["n"])).astype(f32)
        elif p["cen"] == "scalar":
            c = float(dx / 2. + r.uniform(-1.5, 1.5))
        th = tomopy.angles(p["nang"], 5, 160).astype(f32)
        if r.rand() < 0.3:
            th = r.uniform(-2, 5, p["nang"])
        x = field(p["ds"], (p["n"], ox, oz), 1)
        if p["xdt"] != "u2":
            x = spice(x, p["ds"], 0)
        return {"x": (x * (1000 if p["xdt"] == "u2" else 1)).astype(p["xdt"]), "theta": th, "center": c}

    def unit(self, p, a, i):
        b = dict(a, x=a["x"][i:i + 1].copy())
        if np.ndim(a["center"]):
            b["center"] = a["center"][i:i + 1].copy()
        return b

    def oaxis(self, p):
        return 0 if p["so"] else 1

    def call(self, p, a, nc, nch):
        if p["dflt"]:
            r = tomopy.project(a["x"], a["theta"], sinogram_order=True, ncore=nc, nchunk=nch)
            return r if p["so"] else np.ascontiguousarray(np.swapaxes(r, 0, 1))
        return tomopy.project(a["x"], a["theta"], center=a["center"], emission=p["emission"], pad=p["pad"],
                              sinogram_order=p["so"], ncore=nc, nchunk=nch)


# ------------------------------------------------------------------ output arrays of the caller
OL = [None, None, None, "F", "strided", "reversed", "offset", "swapped"]


def given_out(p, shape, src, fn):
    """fn(out) with an array of the caller's as output (src: it is the input too), anywhere in memory"""
    how = p.get("ol") if len(shape) == 3 and not R.ST.plain else None
    base = None
    if how == "F":
        o = np.full(shape, 9, f32, order="F")
    elif how == "strided":
        base = np.full(tuple(shape[:-1]) + (2 * shape[-1],), 77, f32)
        o = base[..., ::2]
    elif how == "reversed":
        o = np.full(shape, 9, f32)[::-1]
    elif how == "offset":
        base = np.full((shape[0] + 2,) + tuple(shape[1:]), 77, f32)
        o = base[1:-1]
    elif how == "swapped":
        o = np.full((shape[2], shape[1], shape[0]), 9, f32).T
    else:
        o = np.full(shape, 9, f32)
    o[...] = 9 if src is None else src
    r = fn(o)
    if r is not o and not np.array_equal(r, o, equal_nan=True):
        raise AssertionError("the given output array does not hold the result")
    if base is not None and not ((base[..., 1::2] if how == "strided" else base[[0, -1]]) == 77).all():
        raise AssertionError("memory next to the given output array was overwritten")
    return r


# ------------------------------------------------------------------ thread-pool filters
class Filt(Op):
    kind = "thread"
    chunked = False

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "shape": [r.choice([1, 2, 3, 5, 6, 17]), r.choice([3, 4, 5, 7, 13]), r.choice([3, 4, 6, 11])],
                "axis": r.choice([0, 1, 2]), "xdt": r.choice(["f4", "f4", "f4", "f8", "u2"]), **self.par(r)}

    def par(self, r):
        return {}

    def data(self, p):
        t = field(p["ds"], tuple(p["shape"]), 1)
        r = rs(p["ds"], 2)
        m = r.rand(*p["shape"]) < 0.15
        t[m] += f32(5)
        xdt = p.get("xdt", "f4")
        if p.get("out") and p["out"] is not True and "same" in str(p["out"]):
            xdt = "f4"
        if xdt != "u2":
            t = spice(t, p["ds"], p["axis"])
        return {"x": (t * (1000 if xdt == "u2" else 1)).astype(xdt)}

    def axis(self, p, name):
        return p["axis"]

    def oaxis(self, p):
        return p["axis"]


@reg
class Gaussian(Filt):
    name = "gaussian_filter"

    def par(self, r):
        return {"sigma": r.choice([0.5, 1, 3, [1, 2], [0.5, 0]]), "order": r.choice([0, 0, 1, [0, 1], 2])}

    def call(self, p, a, nc, nch):
        if p["sigma"] == 3 and p["order"] == 0:
            return tomopy.gaussian_filter(a["x"], axis=p["axis"], ncore=nc)
        return tomopy.gaussian_filter(a["x"], sigma=p["sigma"], order=p["order"], axis=p["axis"], ncore=nc)


@reg
class Median(Filt):
    name = "median_filter"

    def par(self, r):
        return {"size": r.choice([2, 3, 5])}

    def call(self, p, a, nc, nch):
        return tomopy.median_filter(a["x"], size=p["size"], axis=p["axis"], ncore=nc)


@reg
class Sobel(Filt):
    name = "sobel_filter"

    def call(self, p, a, nc, nch):
        return tomopy.sobel_filter(a["x"], axis=p["axis"], ncore=nc)


@reg
class Outlier(Filt):
    name = "remove_outlier"

    def par(self, r):
        return {"size": r.choice([2, 3, 5]), "dif": r.choice([0.5, 1.0, 3.0]), "out": r.choice([False, False, True, "same"]), "ol": r.choice(OL)}

    @property
    def mutates(self):
        return ()

    def call(self, p, a, nc, nch):
        k = {"size": p["size"], "axis": p["axis"], "ncore": nc}
        x = a["x"]
        if p["out"] == "same":
            return given_out(p, x.shape, x, lambda out: tomopy.remove_outlier(out, p["dif"], out=out, **k))
        if p["out"]:
            return given_out(p, x.shape, None, lambda out: tomopy.remove_outlier(x, p["dif"], out=out, **k))
        return tomopy.remove_outlier(x, p["dif"], **k)


@reg
class Outlier1d(Filt):
    name = "remove_outlier1d"

    def par(self, r):
        return {"size": r.choice([3, 5]), "dif": r.choice([0.5, 1.0, 3.0]), "out": r.choice([False, False, True]), "ol": r.choice(OL)}

    # a unit is a line along p["axis"]; cut along another axis
    def _cut(self, p):
        return (p["axis"] + 1) % 3

    def axis(self, p, name):
        return self._cut(p)

    def oaxis(self, p):
        return self._cut(p)

    def call(self, p, a, nc, nch):
        k = {"size": p["size"], "axis": p["axis"], "ncore": nc}
        if p["out"]:
            return given_out(p, a["x"].shape, None, lambda out: tomopy.remove_outlier1d(a["x"], p["dif"], out=out, **k))
        return tomopy.remove_outlier1d(a["x"], p["dif"], **k)


@reg
class Ring(Op):
    name = "remove_ring"
    kind = "thread"

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "n": r.choice([1, 2, 3, 4, 5, 7, 11]), "dx": r.choice([10, 12, 15]),
                "rw": r.choice([2, 3, 5]), "mode": r.choice(["WRAP", "REFLECT", "wrap"]), "tmin": r.choice([6, 10, 12]),
                "out": r.choice([False, False, True, "same"]), "ol": r.choice(OL), "off": r.choice([None, None, [0.5, -0.5], [1, 0], [-1.5, 0.7]]),
                "th": r.choice([[300., 300., -100.], [0.2, 1.3, 0.1], [5., 2., 0.]])}

    def data(self, p):
        t = field(p["ds"], (p["n"], p["dx"], p["dx"]), 1)
        y, x = np.mgrid[:p["dx"], :p["dx"]] - (p["dx"] - 1) / 2.
        rr = np.sqrt(x * x + y * y).astype(int)
        r = rs(p["ds"], 2)
        for i in range(p["n"]):
            t[i][rr == r.randint(1, 4)] += f32(0.4)
        return {"x": spice(t, p["ds"], 0)}

    def call(self, p, a, nc, nch):
        x, k = a["x"], {}
        if p["off"]:
            c = (p["dx"] - 1) / 2.
            k = {"center_x": c + p["off"][0], "center_y": c + p["off"][1]}
        t = p["th"]
        k.update(thresh=t[0], thresh_max=t[1], thresh_min=t[2], theta_min=p["tmin"], rwidth=p["rw"], int_mode=p["mode"], ncore=nc, nchunk=nch)
        if p["out"] == "same":
            return given_out(p, x.shape, x, lambda out: tomopy.remove_ring(out, out=out, **k))
        if p["out"]:
            return given_out(p, x.shape, None, lambda out: tomopy.remove_ring(x, out=out, **k))
        return tomopy.remove_ring(x, **k)


# ------------------------------------------------------------------ OpenMP kernels
class Omp(Op):
    kind = "omp"
    units = False
    spices = ALLK
    chunked = False

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "shape": [r.choice([1, 3, 4, 5, 6, 9]), r.choice([1, 3, 5, 6, 8]), r.choice([1, 3, 5, 7, 10])],
                **self.par(r)}

    def par(self, r):
        return {}

    def data(self, p):
        t = field(p["ds"], tuple(p["shape"]), 1)
        r = rs(p["ds"], 2)
        t[r.rand(*p["shape"]) < 0.1] += f32(4)
        t = spice(t, p["ds"], 0, FINITE if p.get("dt") not in (None, "float32", "float64") else self.spices)
        if p.get("dt") == "uint16":
            t = (np.clip(t, 0, 60) * 1000).astype(np.uint16)
        elif p.get("dt"):
            t = t.astype(p["dt"])
        return {"x": t}


@reg
class Median3d(Omp):
    name = "median_filter3d"

    def par(self, r):
        return {"size": r.choice([3, 3, 5, 7, 4, 1]), "dt": r.choice(["float32", "float32", "uint16", "float64", "int32"])}

    def call(self, p, a, nc, nch):
        return tomopy.median_filter3d(a["x"], size=p["size"], ncore=nc)


@reg
class Outlier3d(Omp):
    name = "remove_outlier3d"

    def par(self, r):
        return {"size": r.choice([3, 3, 5, 7]), "dt": r.choice(["float32", "float32", "uint16", "float64"]), "dif": r.choice([0.3, 1.0, 2.0])}

    def call(self, p, a, nc, nch):
        dif = p["dif"] * 1000 if p["dt"] == "uint16" else p["dif"]
        return tomopy.remove_outlier3d(a["x"], dif, size=p["size"], ncore=nc)


class Inpaint(Omp):
    typ = "mean"
    spices = FINITE          # a voxel that is not finite would spread

    def par(self, r):
        return {"size": r.choice([3, 5, 7]), "it": r.choice([0, 1, 2, 3, 5]), "axis": r.choice([None, None, 0, 1, 2]),
                "frac": r.choice([0.1, 0.3, 0.6])}

    def gen(self, r):
        p = Omp.gen(self, r)
        p["shape"] = [max(3, s) for s in p["shape"]]
        return p

    def data(self, p):
        a = Omp.data(self, p)
        r = rs(p["ds"], 3)
        m = r.rand(*p["shape"]) < p["frac"]
        c = [r.randint(max(1, s - 1)) for s in p["shape"]]
        m[c[0]:c[0] + 2, c[1]:c[1] + 2, c[2]:c[2] + 2] = True
        m[0, 0, 0] = False
        a["x"][m] = 0
        a["mask"] = m
        if p["axis"] is None and p["ds"] % 5 == 0:
            # a single image
            a = {k: np.ascontiguousarray(v[min(1, len(v) - 1)]) for k, v in a.items()}
        return a

    def call(self, p, a, nc, nch):
        return tomopy.inpainter_morph(a["x"], a["mask"], size=p["size"], iterations=p["it"], inpainting_type=self.typ,
                                      axis=p["axis"], ncore=nc)


for _t in ("mean", "median", "random"):
    reg(type("Inpaint_" + _t, (Inpaint,), {"typ": _t, "name": "inpainter_" + _t}))


@reg
class StripesDetect(Omp):
    name = "stripes_detect3d"

    def gen(self, r):
        # also volumes of a few sinograms, smaller than the stencil
        return {"ds": r.randrange(1 << 20), "shape": [r.choice([8, 10, 13]), r.choice([1, 2, 3, 5, 6, 9]), r.choice([1, 2, 3, 9, 12, 16])],
                "size": r.choice([1, 2, 3, 4]), "radius": r.choice([1, 2, 3])}

    def call(self, p, a, nc, nch):
        return tomopy.stripes_detect3d(a["x"], size=p["size"], radius=p["radius"], ncore=nc)


@reg
class StripesMask(Omp):
    name = "stripes_mask3d"

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "shape": [r.choice([8, 10, 13]), r.choice([5, 6, 9]), r.choice([9, 12, 16])],
                "th": r.choice([0.4, 0.5, 0.7]), "len": r.choice([1, 2, 4, 6]), "depth": r.choice([0, 1, 2, 3]), "width": r.choice([1, 2, 3, 5]),
                "sens": r.choice([30., 60., 85., 100.])}

    def data(self, p):
        r = rs(p["ds"], 1)
        t = (0.3 + 0.7 * r.rand(*p["shape"])).astype(f32)
        for _ in range(4):
            t[:, :, r.randint(p["shape"][2])] *= f32(0.4)
        return {"x": t}

    def call(self, p, a, nc, nch):
        return tomopy.stripes_mask3d(a["x"], threshold=p["th"], min_stripe_length=p["len"], min_stripe_depth=p["depth"],
                                     min_stripe_width=p["width"], sensitivity_perc=p["sens"], ncore=nc)


# ------------------------------------------------------------------ process-pool image operations
@reg
class Enhance(Op):
    name = "enhance_projs"
    kind = "ppe"
    chunked = False

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "n": r.choice([1, 2, 3, 5, 7, 11]), "dy": r.choice([5, 7]), "dx": r.choice([6, 8]),
                "ks": r.choice([1, 3, 5, None]), "xdt": r.choice(["f4", "f4", "f8", "u2"])}

    def data(self, p):
        x = field(p["ds"], (p["n"], p["dy"], p["dx"]), 1)
        if p["xdt"] != "u2":
            x = spice(x, p["ds"], 0)
        return {"x": (x * (1000 if p["xdt"] == "u2" else 1)).astype(p["xdt"])}

    def call(self, p, a, nc, nch):
        if p["ks"] is None:
            return tomopy.enhance_projs_aps_1id(a["x"], ncore=nc)
        return tomopy.enhance_projs_aps_1id(a["x"], median_ks=p["ks"], ncore=nc)


@reg
class Drift(Op):
    name = "detector_drift"
    kind = "ppe"
    chunked = False
    units = False
    heavy = 8.0
    exact = False
    rtol = 1e-4

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "n": r.choice([2, 3, 4])}

    def data(self, p):
        r = rs(p["ds"], 1)
        n, N = p["n"], 64
        t = np.zeros((n, N, N), f32)
        for i in range(n):
            im = 0.02 + 0.002 * r.rand(N, N)
            oy, ox = r.randint(-1, 2, 2)
            im[14 + oy:50 + oy, 14 + ox:50 + ox] = 1.0 + 0.3 * r.rand(36, 36)
            t[i] = im
        ref = np.array([[14, 14], [14, 50], [50, 50], [50, 14]], float)
        return {"x": t, "ref": ref}

    def call(self, p, a, nc, nch):
        return detector_drift_adjust_aps_1id(a["x"], a["ref"], medfilt2_kernel_size=3, medfilt_kernel_size=3, ncore=nc)


# ------------------------------------------------------------------ calls without workers (history, numexpr, concurrency)
class Pure(Op):
    units = False
    chunked = False


@reg
class MinusLog(Pure):
    name = "minus_log"

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "shape": [r.choice([1, 3, 40]), 4, r.choice([5, 33])], "out": r.choice([None, None, "new", "same"]), "ol": r.choice(OL),
                "xdt": r.choice(["f4", "f4", "f8", "u2"])}

    def data(self, p):
        x = field(p["ds"], tuple(p["shape"]), 1)
        return {"x": (x * (1000 if p["xdt"] == "u2" else 1)).astype(p["xdt"])}

    def call(self, p, a, nc, nch):
        x = a["x"]
        if p["out"] == "new":
            return given_out(p, x.shape, None, lambda out: tomopy.minus_log(x, ncore=nc, out=out))
        if p["out"] == "same":
            return given_out(p, x.shape, x, lambda out: tomopy.minus_log(out, ncore=nc, out=out))
        return tomopy.minus_log(x, ncore=nc)


@reg
class Normalize(Pure):
    name = "normalize"

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "cut": r.choice([None, 1.2]), "avg": r.choice([None, "mean", "median"]), "nf": r.random() < 0.4,
                "n": r.choice([1, 4, 5, 9]), "nf1": r.choice([0, 1, 1, 3, 4]), "nd": r.choice([0, 1, 2, 3]), "fdt": r.choice(["f4", "f4", "f8", "u2"]),
                "out": r.choice([None, None, "new", "same"]), "ol": r.choice(OL), "nloc": r.choice([1, 2, 3])}

    def data(self, p):
        def img(n, k, lo, hi):
            x = field(p["ds"], (n, 3, 5) if n else (3, 5), k, lo, hi)
            return (x * 1000).astype("u2") if p["fdt"] == "u2" else x.astype(p["fdt"])
        x = field(p["ds"], (p["n"], 3, 5), 1)
        if p["fdt"] == "u2":
            x = (x * 1000).astype("u2")
        nf = p["nf1"] if not p["nf"] else p["nloc"] * max(1, p["nf1"])
        return {"x": x, "flat": img(nf, 2, 1.0, 1.5), "dark": img(p["nd"], 3, 0.0, 0.1)}

    def call(self, p, a, nc, nch):
        x, k = a["x"], {"cutoff": p["cut"], "ncore": nc}
        if p["avg"]:
            k["averaging"] = p["avg"]

        def f(x, out):
            if p["nf"]:
                loc = [round(q * p["n"] / p["nloc"]) for q in range(p["nloc"])]
                return tomopy.normalize_nf(x, a["flat"], a["dark"], loc, out=out, **k)
            return tomopy.normalize(x, a["flat"], a["dark"], out=out, **k)
        if p["out"] == "new":
            return given_out(p, x.shape, None, lambda out: f(x, out))
        if p["out"] == "same":
            return given_out(p, x.shape, x, lambda out: f(out, out))
        return f(x, None)


@reg
class Pointwise(Pure):
    name = "pointwise"
    mutates = ("x",)

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "f": r.choice(["remove_nan", "remove_neg", "circ_mask", "adjust_range", "pad", "pad"]),
                "axis": r.choice([0, 1, 2]), "ratio": r.choice([0.5, 0.9, 1]), "val": r.choice([0, 0.5]),
                "npad": r.choice([None, 1, 4]), "mode": r.choice(["edge", "constant", "c7"]), "xdt": r.choice(["f4", "f4", "f8", "u2", "i4"]),
                "shape": [r.choice([1, 3, 5]), r.choice([2, 6]), r.choice([4, 6, 40])], "lim": r.choice([[None, None], [0.1, 0.6], [0.2, None]])}

    def data(self, p):
        t = field(p["ds"], tuple(p["shape"]), 1, -0.5, 1.0)
        t[rs(p["ds"], 2).rand(*p["shape"]) < 0.1] = np.nan if p["f"] == "remove_nan" else 0
        if p["f"] == "pad":
            t = (t * 100 + (200 if p["xdt"] == "u2" else 0)).astype(p["xdt"])
        return {"x": t}

    def call(self, p, a, nc, nch):
        x = a["x"]
        f = p["f"]
        if f == "pad":
            k = {"mode": p["mode"]}
            if p["mode"] == "c7":
                k = {"mode": "constant", "constant_values": 7}
            return tomopy.pad(x, axis=p["axis"], npad=p["npad"], ncore=nc, **k)
        x = x.copy()
        if f == "adjust_range":
            return tomopy.adjust_range(x, *p["lim"])
        if f == "circ_mask":
            return tomopy.circ_mask(x, axis=p["axis"], ratio=p["ratio"], val=p["val"], ncore=nc)
        return getattr(tomopy, f)(x, 0.25 if p["val"] else 0.0, ncore=nc)


@reg
class Morph(Pure):
    name = "morph"

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "f": r.choice(["downsample", "upsample", "sino_360_to_180"]), "axis": r.choice([0, 1, 2]),
                "level": r.choice([1, 1, 2]), "ov": r.choice([1, 2, 5]), "rot": r.choice(["left", "right"]), "xdt": r.choice(["f4", "f8", "u2"])}

    def data(self, p):
        t = field(p["ds"], (4 + 4 * (p["ds"] % 2), 4, 8), 1)
        return {"x": (t * (1000 if p["xdt"] == "u2" else 1)).astype(p["xdt"])}

    def call(self, p, a, nc, nch):
        if p["f"] == "sino_360_to_180":
            return tomopy.sino_360_to_180(a["x"], overlap=p["ov"], rotation=p["rot"])
        return getattr(tomopy, p["f"])(a["x"], level=p["level"], axis=p["axis"])


@reg
class Misc(Pure):
    """the functions around the kernels: simulation, alignment helpers, phantoms, masks"""
    name = "misc"
    rnd = ("add_gaussian", "add_poisson", "add_rings", "add_salt_pepper", "add_zingers", "add_jitter", "add_noise")
    fns = ("median_filter_nonfinite", "median_filter_cuda", "remove_outlier_cuda", "shepp2d", "shepp3d", "phantom", "checkerboard",
           "blur_edges", "scale", "shift_images", "slits", "distortion_correction_sino", "load_distortion_coefs", "mask_empty_slice",
           "add_drift", "propagate_tie", "probe_gauss", "calc_intensity", "angles", "find_slits", "npmath")

    def gen(self, r):
        p = {"ds": r.randrange(1 << 20), "f": r.choice(self.fns), "n": r.choice([1, 3, 4]), "k": r.choice([0, 1, 2]), "axis": r.choice([0, 1, 2])}
        return p

    def data(self, p):
        x = field(p["ds"], (p["n"], 7, 8), 1)
        a = {"x": x, "y": field(p["ds"], (p["n"], 7, 8), 2)}
        f = p["f"]
        if f == "median_filter_nonfinite":
            m = rs(p["ds"], 3).rand(*x.shape)
            x[m < 0.1] = np.nan
            x[m > 0.97] = np.inf
        elif f == "find_slits":
            im = rs(p["ds"], 4).rand(64, 64) * 0.002 + 0.02
            o = p["k"]
            im[14 + o:50, 14:50 - o] = 1.3
            a["x"] = im.astype(f32)
        elif f == "mask_empty_slice":
            x[: (p["n"] + 1) // 2] *= f32(0.001)
        elif f in ("shift_images", "add_jitter"):
            a["s"] = rs(p["ds"], 5).uniform(-1.5, 1.5, (2, p["n"]))
        return a

    def call(self, p, a, nc, nch):
        f, x, k = p["f"], a["x"], p["k"]
        from tomopy.prep import alignment as al
        if f in self.rnd:
            np.random.seed(p["ds"])
            return getattr(al if f in ("add_jitter", "add_noise") else tomopy, f)(x)
        if f == "median_filter_nonfinite":
            x = x.copy()
            return tomopy.median_filter_nonfinite(x, size=5 + 2 * k)
        if f == "median_filter_cuda":
            return tomopy.median_filter_cuda(x, size=3, axis=p["axis"])
        if f == "remove_outlier_cuda":
            return tomopy.remove_outlier_cuda(x, 0.2, size=3, axis=p["axis"])
        if f == "shepp2d":
            return tomopy.shepp2d(size=(9, 16, 20)[k])
        if f == "shepp3d":
            return tomopy.shepp3d(size=(5, 8, (6, 9, 7))[k])
        if f == "phantom":
            from tomopy.misc import phantom as ph
            return tomopy.phantom((6, 7, 8), ph._array_to_params(ph._get_shepp_array()[:3 + k]))
        if f == "checkerboard":
            return tomopy.checkerboard(size=8)
        if f == "blur_edges":
            return al.blur_edges(x, 0.1 * k, 0.8)
        if f == "scale":
            return al.scale(x)[0]
        if f == "shift_images":
            return al.shift_images(x, a["s"][0], a["s"][1])
        if f == "slits":
            box = al.calc_slit_box_aps_1id(np.array([[1, 1], [1, 6], [5, 6], [5, 1]]), (0, 1, 0, 1))
            return al.remove_slits_aps_1id(x, np.array([[1, 1], [1, 6], [5, 6], [5, 1]]), (0, 1, 0, 1)), np.array(box, float)
        if f == "distortion_correction_sino":
            return tomopy.distortion_correction_sino(x, 2 + k, 4., 3., [1.0, 0.01 * (k - 1), 1e-4])
        if f == "load_distortion_coefs":
            d = os.environ.get("SIM_SCRATCH", "/tmp")
            fn = os.path.join(d, "coef_%d_%d" % (os.getpid(), p["ds"]))
            with open(fn, "w") as h:
                h.write("xcenter = %r\nycenter = 3.5\nfactor_0 = 1.0\nfactor_1 = -1e-3\n" % float(k))
            try:
                r = tomopy.load_distortion_coefs(fn)
            finally:
                os.unlink(fn)
            return np.array([r[0], r[1]] + list(r[2]))
        if f == "mask_empty_slice":
            from tomopy.recon import rotation
            return np.asarray(rotation.mask_empty_slice(x))
        if f == "add_drift":
            return tomopy.add_drift(x, amp=0.1 * (k + 1), period=7)
        if f == "propagate_tie":
            return tomopy.propagate_tie(x, a["y"], 1e-3, 5.)
        if f == "probe_gauss":
            return tomopy.probe_gauss(7, 8, *((None, 3, 2)[k:k + 1]))
        if f == "calc_intensity":
            return tomopy.calc_intensity(tomopy.probe_gauss(4, 4), x[0], mode=("near", "far", "near")[k])
        if f == "angles":
            return tomopy.angles(5 + k, 3., 170.)
        if f == "find_slits":
            return np.asarray(tomopy.find_slits_corners_aps_1id(x, method=("simple", "quadrant", "quadrant+")[k], medfilt_kernel_size=3), float)
        from tomopy.misc import npmath
        q = np.array([[0, 0], [0, 3.], [4, 3.], [4, 0]])
        return (npmath.gauss1d(x[0, 0].astype(float), 1.0, 0.5, 0.3), np.asarray(npmath.discrete_cdf(x[0].astype(float).ravel(), 10)[1], float),
                np.asarray(npmath.calc_affine_transform(q, q * 1.1 + 0.3 * k), float))


@reg
class MiscRandom(Misc):
    """functions that draw from numpy's global generator (seeded by the workload)"""
    name = "misc_random"
    fns = Misc.rnd


@reg
class Align(Pure):
    name = "align"
    heavy = 4.0
    exact = False
    rtol = 1e-4

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "f": r.choice(["align_seq", "align_joint"]), "nang": r.choice([3, 5]), "n": r.choice([1, 3, 4]), "dx": r.choice([8, 10]),
                "it": r.choice([1, 2]), "pad": r.choice([[0, 0], [1, 1]]), "blur": r.random() < 0.7, "alg": r.choice(["sirt", "sirt", "art", "gridrec"])}

    def data(self, p):
        x = field(p["ds"], (p["nang"], p["n"], p["dx"]), 1)
        y, z = np.mgrid[:p["n"], :p["dx"]]
        for i in range(p["nang"]):
            x[i] = x[i] * f32(0.1) + np.exp(-((z - p["dx"] / 2. - i % 2) ** 2) / 6.).astype(f32)
        return {"x": x, "theta": tomopy.angles(p["nang"], 0, 170.)}

    def call(self, p, a, nc, nch):
        k = {}
        if p["ds"] % 2:
            k = {"center": p["dx"] / 2. + p["pad"][0] + 0.25, "upsample_factor": [5, 10, 20][p["ds"] % 3], "rin": 0.4, "rout": 0.9}
        r = getattr(tomopy, p["f"])(a["x"], a["theta"], iters=p["it"], pad=tuple(p["pad"]), blur=p["blur"], algorithm=p["alg"], debug=p["ds"] % 3 == 0, **k)
        return tuple(np.asarray(v) for v in r)


@reg
class Vector(Pure):
    name = "vector"

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "n": r.choice([1, 2, 3]), "nang": r.choice([1, 3, 4]), "dx": r.choice([5, 6, 8, 8, 12, 17]), "k": r.choice([1, 2]),
                "which": r.choice([1, 2, 3]), "cen": r.random() < 0.4,
                "axes": r.choice([None, None, [r.choice([0, 1, 2]) for _ in range(3)]])}

    def data(self, p):
        s = (p["nang"], p["dx"], p["dx"]) if p["which"] > 1 else (p["nang"], p["n"], p["dx"])
        a = {"x": field(p["ds"], s, 1), "y": field(p["ds"], s, 2), "z": field(p["ds"], s, 3),
             "theta": tomopy.angles(p["nang"], 3, 150).astype(f32), "cen": None}
        if p["cen"]:
            a["cen"] = (p["dx"] / 2. + rs(p["ds"], 4).uniform(-1, 1, s[1])).astype(f32)
        if p["which"] > 1:
            a["theta2"] = a["theta"] + f32(0.1)
            if p["cen"]:
                a["cen2"] = a["cen"] + f32(0.25)
        return a

    def call(self, p, a, nc, nch):
        th, c = a["theta"], a["cen"]
        th2, c2 = a.get("theta2"), a.get("cen2")
        if p["which"] == 1:
            return tomopy.vector(a["x"], th, center=c, num_iter=p["k"])
        k = {"axis%d" % (i + 1): v for i, v in enumerate(p["axes"][:p["which"]])} if p["axes"] else {}
        if p["which"] == 2:
            return tomopy.vector2(a["x"], a["y"], th, th2, center1=c, center2=c2, num_iter=p["k"], **k)
        return tomopy.vector3(a["x"], a["y"], a["z"], th, th2, th, center1=c, **{"center%d" % r: c2 if r == 2 else c for r in (2, 3) if p["ds"] % r}, num_iter=p["k"], **k)


@reg
class Project23(Pure):
    name = "project23"

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "n": r.choice([1, 2, 3]), "which": r.choice([2, 3]), "axis": r.choice([0, 1, 2]),
                "nch": r.choice([None, None, 1, 2]), "cen": r.random() < 0.3, "em": r.random() < 0.6, "pad": r.random() < 0.7, "so": r.random() < 0.5, "xdt": r.choice(["f4", "f4", "f8"])}

    def data(self, p):
        # along the other axes, the slices are taken from a cube
        s = (p["n"], 5, 5) if p["which"] == 2 or p["axis"] == 0 else (5, 5, 5)
        a = {k: field(p["ds"], s, i).astype(p["xdt"]) for i, k in enumerate("xyz")}
        a["theta"] = tomopy.angles(3, 3, 150).astype(f32)
        a["cen"] = (2.5 + rs(p["ds"], 4).uniform(-0.5, 2, s[0])).astype(f32) if p["cen"] else None
        return a

    def call(self, p, a, nc, nch):
        k = {"center": a["cen"], "emission": p["em"], "pad": p["pad"], "sinogram_order": p["so"], "ncore": nc, "nchunk": p["nch"]}
        if p["which"] == 2:
            return tomopy.project2(a["x"], a["y"], a["theta"], **k)
        return tomopy.project3(a["x"], a["y"], a["z"], a["theta"], axis=p["axis"], **k)


@reg
class CenterVo(Pure):
    name = "find_center_vo"
    kind = "proc"
    heavy = 3.0

    def gen(self, r):
        return {"ds": r.randrange(1 << 20), "nang": r.choice([8, 12]), "n": r.choice([1, 3, 12]), "dx": r.choice([16, 20]),
                "rng": r.choice([3, 5]), "step": r.choice([0.5, 1.0]), "ind": r.choice([None, 0, -1]), "ratio": r.choice([0.5, 0.5, 0.8, 0.3, 1.2]),
                "drop": r.choice([2, 2, 3, 1, 5]), "srad": r.choice([2, 2, 3]), "tol": r.choice([0.5, 0.25]), "so": r.random() < 0.3, "mask": r.random() < 0.7,
                "init": r.choice([None, 0.0, 1.0])}

    def data(self, p):
        r = rs(p["ds"], 1)
        n = p["n"]
        if p.get("large"):
            nang, dx = p["large"]
            return {"x": r.rand(nang, 1, dx).astype(f32)}
        obj = np.zeros((n, 12, 12), f32)
        y, x = np.mgrid[:12, :12]
        for i in range(n):
            for _ in range(3):
                cy, cx, rad = r.uniform(3, 9), r.uniform(3, 9), r.uniform(1, 2.5)
                obj[i][(y - cy) ** 2 + (x - cx) ** 2 < rad * rad] += f32(r.uniform(0.5, 1))
        # analytic-ish projections on one core of plain numpy (no library code)
        th = np.linspace(0, np.pi, p["nang"], endpoint=False)
        off = r.uniform(-2, 2)
        t = np.zeros((p["nang"], n, p["dx"]), f32)
        yy, xx = y - 5.5, x - 5.5
        for k, ang in enumerate(th):
            s = xx * np.cos(ang) + yy * np.sin(ang) + p["dx"] / 2. + off
            i0 = np.clip(np.floor(s).astype(int), 0, p["dx"] - 2)
            w = s - i0
            for i in range(n):
                np.add.at(t[k, i], i0, obj[i] * (1 - w))
                np.add.at(t[k, i], i0 + 1, obj[i] * w)
        if p["ds"] % 2:
            # noise: the best centre then depends on every detail of the measure
            t += f32(0.5) * r.rand(*t.shape).astype(f32)
        return {"x": t}

    def call(self, p, a, nc, nch):
        return np.asarray(tomopy.find_center_vo(a["x"], ind=p["ind"], smin=-p["rng"], smax=p["rng"], srad=p["srad"], step=p["step"],
                                                ratio=p["ratio"], drop=p["drop"], ncore=nc))


@reg
class Center(CenterVo):
    name = "find_center"
    kind = "thread"

    def call(self, p, a, nc, nch):
        x = a["x"]
        init = None if p["init"] is None else x.shape[2] / 2. + p["init"]
        th = tomopy.angles(x.shape[0])
        if p["so"]:
            x = np.ascontiguousarray(np.swapaxes(x, 0, 1))
        return np.asarray(tomopy.find_center(x, th, ind=0 if p["ind"] else None, init=init, tol=p["tol"], mask=p["mask"],
                                             ratio=p["ratio"] + 0.2, sinogram_order=p["so"]))


@reg
class CenterPc(CenterVo):
    name = "find_center_pc"
    kind = "pure"

    def call(self, p, a, nc, nch):
        x = a["x"]
        return np.asarray(tomopy.find_center_pc(x[0] + 0.01, x[-1] + 0.01, tol=p["tol"], rotc_guess=None if p["init"] is None
                                                else x.shape[2] / 2. + p["init"]))


GROUP = {
    "recon": [k for k in OPS if k.startswith("recon_") and k not in ("recon_accel", "recon_callable")],
    "proc": [k for k, o in OPS.items() if o.kind == "proc" and k != "find_center_vo"],
    "filt": [k for k, o in OPS.items() if o.kind == "thread" and not k.startswith("recon_") and k != "find_center"],
    "omp": [k for k, o in OPS.items() if o.kind == "omp"],
    "pure": ["minus_log", "normalize", "pointwise", "morph", "vector", "project23", "misc"],
}


# ------------------------------------------------------------------ comparison
def tup(r):
    return r if isinstance(r, tuple) else (r,)


def snapshot(r):
    return tuple(np.array(x, copy=True) for x in tup(r))


def compare(op, ref, got, loose=0.0, scale=0.0):
    """None when equal, otherwise a message"""
    ref, got = tup(ref), tup(got)
    if len(ref) != len(got):
        return "%d results instead of %d" % (len(got), len(ref))
    for k, (x, y) in enumerate(zip(ref, got)):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return "shape %s instead of %s" % (y.shape, x.shape)
        if x.dtype != y.dtype:
            return "dtype %s instead of %s" % (y.dtype, x.dtype)
        if op.name == "inpainter_random":
            # random by design: the same voxels are filled, within the range of the data
            if ((x != 0) != (y != 0)).any():
                return "another set of voxels is filled"
            if not (np.isfinite(y).all() and np.abs(y).max() <= 1e3 * (np.abs(x).max() + 1)):
                return "voxels out of range"
            continue
        if x.dtype == bool or x.dtype.kind in "iu":
            d = x != y
            if d.any():
                return "%d of %d elements differ, first at %s" % (d.sum(), d.size, tuple(int(v) for v in np.argwhere(d)[0]))
            continue
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not (fx == fy).all():
            d = fx != fy
            return "%d of %d elements differ in being finite, first at %s" % (d.sum(), d.size, tuple(int(v) for v in np.argwhere(d)[0]))
        if not fx.all():
            if not (np.isnan(x) == np.isnan(y)).all() or not (np.sign(x[np.isinf(x)]) == np.sign(y[np.isinf(y)])).all():
                return "non-finite values differ"
        if not fx.any():
            continue
        sc = max(scale, float(np.abs(x[fx]).max()))
        e = np.zeros(x.shape)
        e[fx] = np.abs(x[fx].astype(float) - y[fx].astype(float))
        lim = loose * sc if op.kind == "omp" else max(loose, op.rtol) * sc + 1e-30
        if (e > lim).any():
            i = np.unravel_index(int(e.argmax()), e.shape)
            return "%d of %d elements differ, largest %.3g (scale %.3g) at %s" % (
                (e > lim).sum(), e.size, float(e.max()), sc, tuple(int(v) for v in i))
    return None
