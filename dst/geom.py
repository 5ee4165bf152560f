"""Remapper geometries as data, how to build them through the public API, and what they mean.

The models here are written from the meaning of the grids (area-weighted means over sub-cells, rotations
of the sphere), not from magpie's code.  Where a sub-cell centre lies on a pixel boundary up to rounding
the model keeps all candidate pixels and returns an interval.
"""
import numpy as np
import healpy as hp

from . import boot

PI = float(np.pi)
TWOPI = 2. * PI
TIE = 1e-9

DENSE = ("dg.Box2Ring", "dg.Cube2Shell", "dg.Heal2Ring", "dg.Heal2Polar", "dg.Heal2Ortho")
MC = ("mc.Box2Ring", "mc.Cube2Shell", "mc.Heal2Ring", "mc.Heal2Polar")


def cls_of(kind):
    m = boot.magpie
    pkg = m.densegrid if kind.startswith("dg.") else m.montecarlo
    return getattr(pkg, kind[3:])


def family(kind):
    return kind[3:]


# ------------------------------------------------------------------------------------------ data

def mk(spec):
    """An array from its description."""
    if not isinstance(spec, dict):
        return spec
    shape = tuple(spec["shape"])
    g = np.random.Generator(np.random.PCG64(spec.get("seed", 0)))
    kind = spec.get("kind", "rand")
    n = int(np.prod(shape))
    if kind == "rand":
        a = g.uniform(-1., 1., n)
    elif kind == "pos":
        a = g.uniform(.1, 1., n)
    elif kind == "wz":          # weights, some zero
        a = g.uniform(.1, 1., n) * (g.uniform(0, 1, n) > .2)
    elif kind == "const":
        a = np.full(n, float(spec.get("value", 1.)))
    elif kind == "one":
        a = np.zeros(n)
        a[spec.get("at", 0) % max(n, 1)] = 1.
    elif kind == "index":
        a = np.arange(n, dtype=float) + 1.
    elif kind == "big":
        a = g.uniform(-1., 1., n) * 10. ** g.integers(-8, 9, n)
    elif kind == "int":
        a = g.integers(-5, 6, n).astype(float)
    elif kind == "holes":       # a map with missing pixels
        a = g.uniform(-1., 1., n)
        a[g.uniform(0, 1, n) < spec.get("frac", .1)] = np.nan
    elif kind == "lin":
        a = np.linspace(spec.get("lo", 0.), spec.get("hi", 1.), n)
    elif kind == "range":
        a = g.uniform(spec.get("lo", 0.), spec.get("hi", 1.), n)
        if spec.get("ends"):    # some right at the ends
            m = g.uniform(0, 1, n)
            a[m < .2], a[m > .8] = spec.get("lo", 0.), spec.get("hi", 1.)
    elif kind == "sorted":
        a = np.sort(g.uniform(spec.get("lo", 0.), spec.get("hi", 1.), n))
    elif kind == "unit":        # a table that sums to one exactly
        a = np.zeros(n)
        np.add.at(a, g.integers(0, n, 16), 1. / 16.)
    else:
        raise KeyError(kind)
    a = a * spec.get("scale", 1.)
    if spec.get("round"):       # whole numbers only (towards zero)
        a = np.trunc(a)
    if spec.get("same") and n:  # all members equal
        a[:] = a[0]
    if spec.get("flip"):
        a = a[::-1].copy()
    a = a.reshape(shape)
    dt = spec.get("dtype")
    if dt:
        a = a.astype(dt)
    lay = spec.get("layout", "C")
    if lay == "F":
        a = np.asfortranarray(a)
    elif lay == "S":            # strided view into a larger buffer
        big = np.zeros(tuple(2 * k for k in shape), dtype=a.dtype) - 77
        big[tuple(slice(None, None, 2) for _ in shape)] = a
        a = big[tuple(slice(None, None, 2) for _ in shape)]
    elif lay == "R":
        a = a[::-1].copy()[::-1]
    if spec.get("readonly"):
        a.setflags(write=False)
    return a


def seed(rng):
    return rng.int(0, 2 ** 31)


MAPS = (("rand", 6), ("pos", 2), ("index", 1), ("one", 2), ("int", 1), ("big", 1), ("holes", 1))


def map_spec(rng, shape, kinds=MAPS[:-1], simple=False):
    s = {"shape": list(shape), "seed": seed(rng), "kind": rng.weighted(kinds)}
    if s["kind"] == "one":
        s["at"] = rng.int(0, 10 ** 6)
    if s["kind"] == "holes":
        s["frac"] = rng.choice([.02, .1, .4])
    if not simple:
        if rng.chance(.15):
            s["layout"] = rng.choice(["F", "S", "R"])
        if rng.chance(.08):
            s["dtype"] = rng.choice(["float32", "int64", ">f8", ">f4", "int16"])
            if s["dtype"] in ("int64", "int16"):
                s["kind"] = "int"
        if rng.chance(.1):
            s["readonly"] = True
    return s


def weight_spec(rng, shape, zeros=True):
    s = map_spec(rng, shape, (("pos", 6), ("const", 1), ("wz", 1 if zeros else 0)))
    if s.pop("dtype", None):
        s["kind"] = "pos"
    if s["kind"] == "const":
        s["value"] = rng.choice([1., 2.5, 1e-3])
    return s


# ------------------------------------------------------------------------------- generating grids

def nice(rng, a, b):
    v = rng.uniform(a, b)
    if rng.chance(.4):
        v = float(round(v * 4) / 4)
    return v


def axis(rng, nmax, scale):
    lo = nice(rng, -3, 2) * scale
    ln = max(nice(rng, .5, 5), .25) * scale
    return [lo, lo + ln, rng.int(1, nmax) if rng.chance(.9) else rng.int(1, 3 * nmax)]


def gen_source(rng, kind, size=8, big=False):
    f = family(kind)
    big = big and rng.chance(.06)
    if f in ("Box2Ring", "Cube2Shell"):
        scale = rng.weighted([(1., 60), (100., 10), (1e-3, 10), (1e-9, 2), (1e9, 2)])
        k = 2 if f == "Box2Ring" else 3
        ax = [axis(rng, size, scale) for _ in range(k)]
        if rng.chance(.3):      # same box on all axes
            ax = [list(ax[0]) for _ in range(k)]
        names = "xyz"[:k]
        if big:                 # indices that need more than a byte, pixel numbers that need more than two
            ax[rng.int(0, k - 1)][2] = rng.int(100, 600 if k == 2 else 300)
        kw = {}
        for n, (lo, hi, num) in zip(names, ax):
            kw[n + "min"], kw[n + "max"], kw["num" + n] = lo, hi, num
        return {"m": "setup_box" if k == 2 else "setup_cube", "kw": kw}
    if big:
        return {"m": "setup_map", "kw": {"nside": rng.choice([16, 32, 64, 64, 128, 128, 256])}}
    return {"m": "setup_map", "kw": {"nside": rng.choice([1, 2, 4, 8] if size > 4 else [1, 2, 4])}}


def center_flavour(rng, c):
    """lists, tuples, arrays and integers are all fine as centers"""
    t = rng.weighted([("list", 6), ("tuple", 2), ("array", 2)])
    return {"center": list(c), "as": t}


def sky_center(rng, thetamax=PI - .02):
    ph = rng.weighted([(rng.uniform(0, TWOPI - 1e-3), 6), (0., 1), (PI / 2, 1), (PI, 1), (1.5 * PI, 1),
                       (TWOPI, .5), (1e-17, .3), (float(np.nextafter(TWOPI, 0.)), .2), (float(np.nextafter(1.5 * PI, 0.)), .2)])
    th = rng.weighted([(rng.uniform(0, thetamax), 6), (0., 1), (PI / 2, 1), (PI / 4, 1), (1e-17, .2),
                       (float(np.nextafter(PI / 2, 0.)), .2)])
    return [ph, th]


def gen_target(rng, kind, src, size=6, big=False):
    t = _gen_target(rng, kind, src, size)
    if rng.chance(.15):
        t["refill"] = True
    if big and (big == "all" or kind.startswith("dg.")) and rng.chance(.03):
        names = sorted(n for n in t["kw"] if n in ("numr", "nump", "num_alpha", "num_beta", "x_grid", "y_grid"))
        if family(kind) == "Cube2Shell":
            return t
        if rng.chance(.3):
            for n in names:
                t["kw"][n] = rng.int(12, 40)
        else:
            for n in names:
                t["kw"][n] = rng.int(1, 3)
            t["kw"][rng.choice(names)] = rng.int(60, 300)
        if t["m"].endswith("log") and t["kw"].get("addzero", True):
            t["kw"]["numr"] = max(t["kw"]["numr"], 2)
        if "x_grid" in t["kw"]:
            t["kw"].setdefault("y_grid", 2)
    return t


def _gen_target(rng, kind, src, size=6):
    f = family(kind)
    dense = kind.startswith("dg.")
    kw = {}
    if f in ("Box2Ring", "Cube2Shell"):
        s = src["kw"]
        names = "xy" if f == "Box2Ring" else "xyz"
        L = [s[n + "max"] - s[n + "min"] for n in names]
        C = [.5 * (s[n + "max"] + s[n + "min"]) for n in names]
        half = .5 * min(L)
        rmax = half * rng.weighted([(1., 2), (rng.uniform(.2, 1.), 5), (rng.uniform(1., 2.5), 3), (.5, 1)])
        rmin = 0. if rng.chance(.55) else rmax * rng.choice([.25, .5, rng.uniform(.05, .9)])
        how = rng.weighted([("omit", 1), ("mid", 4), ("in", 4), ("edge", 1), ("out", 1)])
        if how == "mid":
            c = C
        elif how == "in":
            c = [m + l * rng.uniform(-.5, .5) for m, l in zip(C, L)]
        elif how == "edge":
            c = [m + l * rng.choice([-.5, 0., .5]) for m, l in zip(C, L)]
        elif how == "out":
            c = [m + l * rng.uniform(-2, 2) for m, l in zip(C, L)]
        if how != "omit":
            kw["center"] = center_flavour(rng, c)
        kw.update(rmin=rmin, rmax=rmax, numr=rng.int(1, size if f == "Box2Ring" else 3))
        if f == "Box2Ring":
            kw["nump"] = rng.int(1, size + 2)
            angle_range(rng, kw, "pmin", "pmax")
            shift(rng, kw, "phi_shift")
            if dense:
                m = "setup_polar"
                rebin(rng, kw, "rebin_r", "rebin_p")
            else:
                m = "setup_polar_lin"
        else:
            kw["nside"] = rng.choice([1, 2, 4] if dense else [1, 2])
            if dense:
                m = "setup_polar"
                if rng.chance(.8):
                    kw["rebin_r"] = rng.int(1, 3)
                if rng.chance(.8):
                    kw["rebin_shell"] = rng.choice([1, 2, 4] if kw["nside"] < 4 else [1, 2])
                if rng.chance(.35):
                    for n in names:
                        if rng.chance(.7):
                            kw["periodic" + n] = [-rng.int(0, 2), rng.int(0, 2)]
            else:
                m = "setup_polar_lin"
        if not dense and rng.chance(.3):
            m = "setup_polar_log"
            kw["rmin"] = max(rmin, rmax * rng.uniform(.02, .3))
            if kw["rmin"] >= rmax:
                kw["rmin"] = .5 * rmax
            if rng.chance(.5):
                kw["addzero"] = rng.chance(.5)
            if kw.get("addzero", True):
                kw["numr"] = max(kw["numr"], 2)
        return {"m": m, "kw": kw}
    if f == "Heal2Ring":
        amax = rng.weighted([(rng.uniform(.05, 1.2), 6), (rng.uniform(1.2, PI), 2), (PI, 1), (PI / 2, 1)])
        kw.update(alpha_min=0. if rng.chance(.6) else amax * rng.uniform(.05, .9), alpha_max=amax,
                  num_alpha=rng.int(1, size), num_beta=rng.int(1, size + 2))
        angle_range(rng, kw, "beta_min", "beta_max")
        shift(rng, kw, "beta_shift")
        if rng.chance(.9):
            kw["center"] = center_flavour(rng, sky_center(rng))
        if dense:
            rebin(rng, kw, "rebin_alpha", "rebin_beta")
        return {"m": "setup_polar_cap", "kw": kw}
    # boxes on the sky
    if f == "Heal2Polar":
        kw.update(x_length=rng.weighted([(rng.uniform(.05, 1.5), 6), (rng.uniform(1.5, TWOPI), 2), (TWOPI, 1), (PI, 1)]))
        if rng.chance(.4):
            kw["y_length"] = rng.weighted([(rng.uniform(.05, 1.5), 6), (rng.uniform(1.5, PI), 2), (PI, 1)])
        shift(rng, kw, "alpha")
        kw["x_grid"] = rng.int(1, size)
        if rng.chance(.4):
            kw["y_grid"] = rng.int(1, size)
        if rng.chance(.85):
            kw["center"] = center_flavour(rng, sky_center(rng, PI) if rng.chance(.9) else [rng.uniform(0, 6.28), PI])
        if dense:
            rebin(rng, kw, "rebin_x", "rebin_y")
        return {"m": "setup_box", "kw": kw}
    radius = rng.weighted([(None, 5), (rng.uniform(.5, 3.), 2)])
    r = radius or 1.
    if radius:
        kw["radius"] = radius
    kw["x_length"] = r * rng.weighted([(rng.uniform(.1, 2.), 6), (rng.uniform(2., 2.9), 2), (2., 1), (1., 1)])
    if rng.chance(.4):
        kw["y_length"] = r * rng.uniform(.1, 2.5)
    kw["x_grid"] = rng.int(1, size)
    if rng.chance(.4):
        kw["y_grid"] = rng.int(1, size)
    if rng.chance(.85):
        kw["center"] = center_flavour(rng, sky_center(rng))
    rebin(rng, kw, "rebin_x", "rebin_y")
    return {"m": "setup_box", "kw": kw}


def angle_range(rng, kw, lo, hi):
    if rng.chance(.5):
        return
    a = 0. if rng.chance(.3) else rng.uniform(0., 5.)
    b = rng.uniform(a + .05, TWOPI)
    if rng.chance(.2):
        b = TWOPI
    kw[lo], kw[hi] = a, min(b, TWOPI)


def shift(rng, kw, name):
    if rng.chance(.5):
        kw[name] = rng.weighted([(rng.uniform(.01, 6.2), 6), (0., 1), (PI, 1), (PI / 2, 1), (TWOPI, .5), (1e-17, .2)])


def rebin(rng, kw, a, b):
    if rng.chance(.85):
        kw[a] = rng.int(1, 4) if rng.chance(.97) else rng.int(5, 16)
    if rng.chance(.85):
        kw[b] = rng.int(1, 4)


def real_kw(kw):
    out = {}
    for k, v in kw.items():
        if isinstance(v, dict):
            c = v["center"]
            v = {"list": list, "tuple": tuple, "array": np.array}[v["as"]](c)
        elif isinstance(v, list):
            v = list(v)
        out[k] = v
    return out


def apply(obj, op):
    """Perform a setup described as data."""
    kw = real_kw(op["kw"])
    try:
        return getattr(obj, op["m"])(**kw)
    finally:
        if op.get("refill"):        # the caller uses its list or array for something else
            refill(kw)


def refill(kw):
    for v in kw.values():
        if isinstance(v, (list, np.ndarray)):
            for i in range(len(v)):
                v[i] = v[i] * .5 + .3 if isinstance(v[i], float) else 0


def center_of(kw, k):
    c = kw.get("center")
    return [0.] * k if c is None else list(c["center"])


def src_shape(kind, src):
    s = src["kw"]
    if family(kind) == "Box2Ring":
        return (s["numy"], s["numx"])
    if family(kind) == "Cube2Shell":
        return (s["numy"], s["numx"], s["numz"])
    return (12 * s["nside"] ** 2,)


def tgt_shape(kind, tgt):
    k = tgt["kw"]
    f = family(kind)
    if f == "Box2Ring":
        return (k["nump"], k["numr"])
    if f == "Cube2Shell":
        return (k["numr"], 12 * k["nside"] ** 2)
    if f == "Heal2Ring":
        return (k["num_beta"], k["num_alpha"])
    return (k.get("y_grid", k["x_grid"]), k["x_grid"])


DEFAULTS = {
    "rebin_r": 2, "rebin_p": 2, "rebin_alpha": 2, "rebin_beta": 2, "rebin_x": 2, "rebin_y": 2, "rebin_shell": 2,
    "phi_shift": 0., "beta_shift": 0., "alpha": 0., "pmin": 0., "pmax": TWOPI, "beta_min": 0., "beta_max": TWOPI,
    "radius": 1., "addzero": True, "periodicx": [0, 0], "periodicy": [0, 0], "periodicz": [0, 0],
}


def normal(kind, op):
    """The grid a setup describes, with all defaults filled in (to compare geometries)."""
    kw = dict(op["kw"])
    f = family(kind)
    if "center" in kw or op["m"] not in ("setup_map", "setup_cube") and not (op["m"] == "setup_box" and f == "Box2Ring"):
        kw["center"] = [float(x) for x in center_of(kw, 3 if f == "Cube2Shell" else 2)]
    for k, v in DEFAULTS.items():
        kw.setdefault(k, v)
    if "x_grid" in kw:
        kw.setdefault("y_grid", kw["x_grid"])
        kw.setdefault("y_length", min(kw["x_length"], PI) if f == "Heal2Polar" else kw["x_length"])
    return [op["m"], sorted(kw.items())]


# -------------------------------------------------------------------------------------- rotations

def Rz(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s, 0.], [s, c, 0.], [0., 0., 1.]])


def Ry(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0., s], [0., 1., 0.], [-s, 0., c]])


def sph(phi, theta):
    return np.array([np.cos(phi) * np.sin(theta), np.sin(phi) * np.sin(theta), np.cos(theta)])


def cap_matrix(c, spin):
    return Rz(c[0]) @ Ry(c[1]) @ Rz(spin)


def skybox_matrix(c, spin):
    return Rz(c[0]) @ Ry(c[1] - PI / 2) @ Ry(PI / 2) @ Rz(spin) @ Ry(-PI / 2)


def ortho_matrix(c):
    return Rz(c[0]) @ Ry(c[1]) @ Rz(-1.5 * PI)


def tangent(v):
    """two unit vectors orthogonal to each column of v"""
    a = np.where(np.abs(v[2]) < .9, 0., 1.)
    h = np.array([a, 0. * a, 1. - a])
    t = np.cross(v.T, h.T).T
    t /= np.sqrt((t ** 2).sum(0))
    return t, np.cross(v.T, t.T).T


def sky_candidates(nside, v, eps=3e-8):
    """pixel candidates of unit vectors v (3, n): array (k, n)"""
    t, b = tangent(v)
    cand = [v] + [v + q * eps * (np.cos(.3 + k * PI / 4) * t + np.sin(.3 + k * PI / 4) * b) for k in range(8) for q in (.2, 1.)]
    return np.array([hp.vec2pix(nside, *c) for c in cand])


# ------------------------------------------------------------------------------------ dense models

def edges(lo, hi, n):
    return lo + (hi - lo) * np.arange(n + 1) / n


def mids(e):
    return .5 * (e[1:] + e[:-1])


def cart_candidates(p, lo, hi, n, tie):
    """cell numbers of points along one axis: (2, m), -1 outside"""
    w = (hi - lo) / n
    out = []
    for s in (-tie, tie):
        i = np.floor((p - lo + s) / w).astype(int)
        out.append(np.where((i < 0) | (i >= n), -1, i))
    return np.array(out)


class Sub:
    """Sub-cells of a target grid: cell (n_sub,), weight (n_sub,), values' candidate pixels."""

    spoils = True       # else healpy leaves missing sub-pixels out of the mean

    def __init__(self, shape, cell, weight, cand, skip=None, nan=None):
        self.shape, self.cell, self.weight, self.cand = shape, cell, weight, cand
        self.n = int(np.prod(shape))
        self.skip = np.zeros(self.n, bool) if skip is None else skip      # undecidable up to rounding
        self.nan = np.zeros(self.n, bool) if nan is None else nan

    def mean(self, f):
        """interval of the weighted mean of flat map f (index -1 is outside: zero)"""
        g = np.append(np.asarray(f, dtype=float).ravel(), 0.)
        v = g[self.cand]
        lo, hi = v.min(0), v.max(0)
        W = np.bincount(self.cell, self.weight, self.n)
        with np.errstate(all="ignore"):
            return (np.bincount(self.cell, self.weight * lo, self.n) / W,
                    np.bincount(self.cell, self.weight * hi, self.n) / W)

    def ambiguous(self):
        d = (self.cand != self.cand[0]).any(0)
        return np.bincount(self.cell, d, self.n) > 0

    def covered(self):
        """cells all of whose sub-cells lie inside the source for sure"""
        out = (self.cand < 0).any(0)
        return np.bincount(self.cell, out, self.n) == 0

    def check(self, got, f, w=None, what="remap"):
        """None or a description of the first wrong cell."""
        got = np.asarray(got)
        if got.shape != self.shape:
            return "%s has shape %s, expected %s" % (what, got.shape, self.shape)
        g = got.ravel().astype(float)
        nan = self.nan
        fa = np.asarray(f, dtype=float).ravel()
        if w is None:
            lo, hi = self.mean(fa)
            amb = np.zeros(self.n, bool)
            mag = biggest(fa)
            tol = np.full(self.n, 1e-9 * max(mag, 1e-300))
        else:
            wa = np.asarray(w, dtype=float).ravel()
            nlo, nhi = self.mean(fa * wa)
            dlo, dhi = self.mean(wa)
            with np.errstate(all="ignore"):
                lo, hi = nlo / dlo, nhi / dhi
                amb = self.ambiguous()
                mag = biggest(fa * wa)
                tol = 1e-9 * mag / np.abs(dlo)
            # nothing but outside or zero weight: undefined
            und = ~(dlo > 0)
            nan = nan | (und & ~amb)
        gone = np.isnan(lo) | np.isnan(hi)      # missing pixels spoil the cells that use them, and no others
        if gone.any():
            a = self.ambiguous() if self.spoils else gone
            amb = amb | (gone & a)
            nan = nan | (gone & ~a)
        skip = self.skip | amb
        with np.errstate(all="ignore"):
            bad = ~((g >= lo - tol) & (g <= hi + tol))
        bad = np.where(nan, ~np.isnan(g), bad) & ~skip
        if w is not None:
            # weighted cells with boundary sub-cells: at least between the extremes of the candidates
            pass
        if bad.any():
            i = int(np.argmax(bad))
            ix = tuple(int(q) for q in np.unravel_index(i, self.shape))
            exp = "nan" if nan[i] else ("%r" % float(lo[i]) if hi[i] - lo[i] <= 2 * tol[i] else
                                        "in [%r, %r]" % (float(lo[i]), float(hi[i])))
            return "%s: cell %s is %r, expected %s (%d of %d cells wrong)" % (what, ix, float(g[i]), exp, int(bad.sum()), self.n)
        return None


def biggest(a):
    a = np.abs(a)
    a = a[a < np.inf]
    return a.max() if a.size else 0.


def dense_sub(kind, src, tgt):
    s, k = src["kw"], tgt["kw"]
    f = family(kind)
    d = lambda n: k.get(n, DEFAULTS[n])
    if f == "Box2Ring":
        qr, qp = d("rebin_r"), d("rebin_p")
        re = edges(k["rmin"], k["rmax"], k["numr"] * qr)
        pe = edges(d("pmin"), d("pmax"), k["nump"] * qp)
        P, R = np.meshgrid(mids(pe), mids(re), indexing="ij")
        ang = P + d("phi_shift")
        c = center_of(k, 2)
        x, y = c[0] + R * np.cos(ang), c[1] + R * np.sin(ang)
        wt = np.broadcast_to(re[1:] ** 2 - re[:-1] ** 2, P.shape)
        J, I = np.meshgrid(np.arange(k["nump"] * qp) // qp, np.arange(k["numr"] * qr) // qr, indexing="ij")
        tie = TIE * (abs(s["xmax"]) + abs(s["xmin"]) + abs(s["ymax"]) + abs(s["ymin"]) + k["rmax"] + abs(c[0]) + abs(c[1]))
        X = cart_candidates(x.ravel(), s["xmin"], s["xmax"], s["numx"], tie)
        Y = cart_candidates(y.ravel(), s["ymin"], s["ymax"], s["numy"], tie)
        cand = np.array([np.where((a < 0) | (b < 0), -1, b * s["numx"] + a) for a in X for b in Y])
        return Sub((k["nump"], k["numr"]), (J * k["numr"] + I).ravel(), wt.ravel(), cand)
    if f == "Cube2Shell":
        q, qs, ns = d("rebin_r"), d("rebin_shell"), k["nside"]
        hi = ns * qs
        re = edges(k["rmin"], k["rmax"], k["numr"] * q)
        npix = 12 * hi * hi
        vx, vy, vz = hp.pix2vec(hi, np.arange(npix))
        parent = np.arange(npix)
        if qs > 1:
            parent = hp.nest2ring(ns, hp.ring2nest(hi, np.arange(npix)) // (qs * qs))
        c = center_of(k, 3)
        L = [s[n + "max"] - s[n + "min"] for n in "xyz"]
        scale = sum(abs(s[n + e]) for n in "xyz" for e in ("min", "max")) + k["rmax"] + sum(abs(a) for a in c)
        for n, l in zip("xyz", L):
            scale += max(abs(i) for i in d("periodic" + n)) * l
        tie = TIE * scale
        cells, wts, cands = [], [], []
        ncell = 12 * ns * ns
        for i in range(k["numr"] * q):
            r = .5 * (re[i] + re[i + 1])
            sets = []
            px, py, pz = d("periodicx"), d("periodicy"), d("periodicz")
            pts = (r * vx + c[0], r * vy + c[1], r * vz + c[2])
            idx = []
            for n, p, per, l in zip("xyz", pts, (px, py, pz), L):
                # copies of the cube: the point belongs to image i when p + i*l is inside
                rows = []
                for im in range(per[0], per[1] + 1):
                    rows.append(cart_candidates(p + im * l, s[n + "min"], s[n + "max"], s["num" + n], tie))
                a = np.array([rr[0] for rr in rows])
                b = np.array([rr[1] for rr in rows])
                lo, hi_ = a.max(0), b.max(0)
                # on a seam between images the point may also count for neither
                idx.append((lo, hi_, np.where((a != b).any(0), -1, lo)) if per[1] > per[0] else (lo, hi_))
            X, Y, Z = idx
            for a in X:
                for b in Y:
                    for e in Z:
                        sets.append(np.where((a < 0) | (b < 0) | (e < 0), -1, (b * s["numx"] + a) * s["numz"] + e))
            cands.append(np.array(sets))
            cells.append((i // q) * ncell + parent)
            wts.append(np.full(npix, re[i + 1] ** 3 - re[i] ** 3))
        sub = Sub((k["numr"], ncell), np.concatenate(cells), np.concatenate(wts), np.concatenate(cands, axis=1))
        sub.spoils = False
        return sub
    ns = s["nside"]
    if f == "Heal2Ring":
        qa, qb = d("rebin_alpha"), d("rebin_beta")
        ae = edges(k["alpha_min"], k["alpha_max"], k["num_alpha"] * qa)
        be = edges(d("beta_min"), d("beta_max"), k["num_beta"] * qb)
        B, A = np.meshgrid(mids(be), mids(ae), indexing="ij")
        v = cap_matrix(center_of(k, 2), d("beta_shift")) @ sph(B.ravel(), A.ravel())
        wt = np.broadcast_to(np.cos(ae[:-1]) - np.cos(ae[1:]), B.shape)
        J, I = np.meshgrid(np.arange(k["num_beta"] * qb) // qb, np.arange(k["num_alpha"] * qa) // qa, indexing="ij")
        return Sub((k["num_beta"], k["num_alpha"]), (J * k["num_alpha"] + I).ravel(), wt.ravel(), sky_candidates(ns, v))
    qx, qy = d("rebin_x"), d("rebin_y")
    nx = k["x_grid"]
    ny = k.get("y_grid", nx)
    xl = k["x_length"]
    if f == "Heal2Polar":
        yl = k.get("y_length", min(xl, PI))
    else:
        yl = k.get("y_length", xl)
    xe, ye = edges(-xl / 2, xl / 2, nx * qx), edges(-yl / 2, yl / 2, ny * qy)
    Y, X = np.meshgrid(mids(ye), mids(xe), indexing="ij")
    J, I = np.meshgrid(np.arange(ny * qy) // qy, np.arange(nx * qx) // qx, indexing="ij")
    cell = (J * nx + I).ravel()
    if f == "Heal2Polar":
        v = skybox_matrix(center_of(k, 2), d("alpha")) @ sph(X.ravel(), PI / 2 - Y.ravel())
        wt = np.broadcast_to((np.sin(ye[1:]) - np.sin(ye[:-1]))[:, None], X.shape)
        return Sub((ny, nx), cell, wt.ravel(), sky_candidates(ns, v))
    r = d("radius")
    rho = (X ** 2 + Y ** 2).ravel()
    on = rho < r * r
    z = np.sqrt(np.maximum(r * r - rho, 0.))
    v = np.array([X.ravel(), Y.ravel(), z])
    nrm = np.sqrt((v ** 2).sum(0))
    nrm[nrm == 0] = 1.
    v = ortho_matrix(center_of(k, 2)) @ (v / nrm)
    tie = np.abs(rho - r * r) < 1e-9 * r * r
    n = nx * ny
    cx = (mids(edges(-xl / 2, xl / 2, nx))[None, :] ** 2 + mids(edges(-yl / 2, yl / 2, ny))[:, None] ** 2).ravel()
    skip = (np.bincount(cell, tie, n) > 0) | (np.abs(cx - r * r) < 1e-9 * r * r)
    skip |= (np.bincount(cell, on, n) == 0) & (cx < r * r)
    # close to the rim the position on the sphere is ill-conditioned
    rim = on & (rho > r * r * (1 - 1e-12))
    skip |= np.bincount(cell, rim, n) > 0
    return Sub((ny, nx), cell, on.astype(float), sky_candidates(ns, v), skip, cx >= r * r)
