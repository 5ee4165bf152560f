"""Regions to draw random points in: generation, the call, membership and the map to the unit cube."""
import healpy as hp
import numpy as np

from . import boot, geom

PI, TWOPI = geom.PI, geom.TWOPI
EPS = 2.3e-16

KINDS = (("1d", 2), ("2d", 2), ("3d", 2), ("polar", 4), ("sphere_r", 2), ("sphere", 4), ("usphere", 4), ("pixel", 6),
         ("cdf", 2), ("pdf", 3))


def span(rng):
    s = rng.weighted([(1., 6), (100., 1), (1e-3, 1), (1e6, 1)])
    a = rng.weighted([(rng.uniform(-3, 3), 6), (0., 2), (-1., 1), (1., 1)]) * s
    w = rng.weighted([(rng.uniform(.05, 4), 6), (1., 1), (1e-6, .5)]) * s
    if rng.chance(.1):
        return [int(round(rng.uniform(-5, 5))), int(round(rng.uniform(6, 12)))]
    return [a, a + w]


def radii(rng, kw):
    s = rng.weighted([(1., 6), (1e3, 1), (1e-3, 1)])
    if rng.chance(.2):
        return
    a = rng.weighted([(0., 3), (rng.uniform(0., 2.), 5), (rng.uniform(5., 50.), 1)]) * s
    b = a + rng.weighted([(rng.uniform(.05, 3.), 6), (1., 1), (1e-5, .5)]) * s
    if rng.chance(.1):
        a, b = rng.int(0, 3), rng.int(4, 9)
    if a != 0 or rng.chance(.7):
        kw["r_min"] = a
    elif b == 0:
        return
    kw["r_max"] = b
    if "r_min" not in kw:
        kw["r_max"] = max(b, .1 * s)


def angles(rng, kw):
    if rng.chance(.3):
        return
    a = rng.weighted([(0., 2), (rng.uniform(0., 6.), 5), (rng.uniform(-PI, 0.), 1), (PI, 1)])
    b = a + rng.weighted([(rng.uniform(.01, TWOPI), 6), (PI, 1), (TWOPI, 1), (1e-6, .3)])
    if a >= 0 and b > TWOPI:
        b = TWOPI
    kw["phi_min"], kw["phi_max"] = a, b
    if a == 0 and rng.chance(.5):
        kw.pop("phi_min")


def latitudes(rng, kw):
    if rng.chance(.3):
        return
    a = rng.weighted([(0., 2), (rng.uniform(0., 3.), 6), (PI / 2, 1)])
    b = rng.weighted([(rng.uniform(a + .01, PI), 6), (PI, 2), (a + .01, .5)])
    kw["theta_min"], kw["theta_max"] = a, min(b, PI)
    if a == 0 and rng.chance(.5):
        kw.pop("theta_min")
    elif kw["theta_max"] == PI and rng.chance(.5):
        kw.pop("theta_max")


def gen(rng, kinds=KINDS, statistical=False):
    k = rng.weighted(kinds)
    kw = {}
    if k == "1d":
        if rng.chance(.85):
            kw["xmin"], kw["xmax"] = span(rng)
    elif k in ("2d", "3d"):
        if rng.chance(.85):
            s = [span(rng) for _ in range(int(k[0]))]
            flav = rng.weighted([("list", 5), ("tuple", 2), ("array", 2)])
            kw["mins"] = {"v": [x[0] for x in s], "as": flav}
            kw["maxs"] = {"v": [x[1] for x in s], "as": flav}
    elif k == "polar":
        radii(rng, kw)
        angles(rng, kw)
    elif k == "sphere_r":
        radii(rng, kw)
    elif k == "sphere":
        radii(rng, kw)
        angles(rng, kw)
        latitudes(rng, kw)
    elif k == "usphere":
        angles(rng, kw)
        latitudes(rng, kw)
    elif k == "pixel":
        ns = rng.weighted([(1, 2), (2, 3), (4, 3), (8, 2), (16, 1), (64, 1), (1024, 1)])
        if not statistical and rng.chance(.25):
            ns = rng.choice([3, 5, 6, 7, 12, 100, 1000, 4096, 8192, 16384, 32768])
        n = 12 * ns * ns
        cap = 2 * ns * (ns - 1)
        p = rng.weighted([(rng.int(0, n - 1), 6), (0, .5), (n - 1, .5), (rng.int(0, 3), 1), (n - 1 - rng.int(0, 3), 1),
                          (max(cap - 1, 0), .5), (cap, .5), (n - cap - 1, .5), (min(n - cap, n - 1), .5),
                          (rng.int(0, max(cap - 1, 0)), 2), (n - 1 - rng.int(0, max(cap - 1, 0)), 2)])
        kw = {"p": p, "nside": ns}
    elif k in ("cdf", "pdf"):
        n = rng.int(2, 12)
        s = span(rng)
        kind = "linear"
        zeros = rng.chance(.3)
        if k == "pdf" and n >= 4 and statistical and rng.chance(.6):
            kind, zeros = rng.choice(["default", "cubic", "quadratic"]), False
        kw = {"n": n, "seed": rng.seed(), "x": s, "zeros": zeros, "kind": kind,
              "shape": "smooth" if kind != "linear" else rng.choice(["rough", "smooth", "flat"])}
    return {"g": k, "kw": kw, "pos": rng.chance(.3), "size_as": rng.weighted([("int", 6), ("np", 1)])}


def table(reg):
    """x (bin edges or knots), cdf from a distribution's description; the pdf's bin middles and values"""
    kw = reg["kw"]
    g = np.random.Generator(np.random.PCG64(kw["seed"]))
    n = kw["n"]
    if kw["shape"] == "rough":
        p = g.uniform(.01, 1., n) ** 2
    elif kw["shape"] == "flat":
        p = np.full(n, 3.)
    else:
        t = (np.arange(n) + .5) / n
        p = 1. + .6 * np.cos(2.5 * t + g.uniform(0, 6)) + .1 * g.uniform()
    if kw["zeros"] and n > 2:
        p[g.integers(0, n)] = 0.
    lo, hi = [float(v) for v in kw["x"]]
    x = lo + (hi - lo) * np.arange(n + 1) / n
    if reg["g"] == "pdf":
        c = np.append(0., np.cumsum(p))
        return x, c / c[-1], .5 * (x[1:] + x[:-1]), p * g.uniform(.2, 5.)
    x = np.sort(np.append([lo, hi], g.uniform(lo, hi, n - 1)))
    c = np.append(0., np.cumsum(p))
    c /= c[-1]
    return x, c, None, None


def call(reg, size):
    """A function performing the draw."""
    R = boot.magpie.randoms
    k, kw = reg["g"], dict(reg["kw"])
    if reg.get("size_as") == "np":
        size = np.int64(size)
    if k in ("2d", "3d"):
        for n in kw:
            kw[n] = {"list": list, "tuple": tuple, "array": np.array}[kw[n]["as"]](kw[n]["v"])
    if k == "pixel":
        if reg["pos"]:
            return lambda: R.randoms_healpix_pixel(size, kw["p"], kw["nside"])
        return lambda: R.randoms_healpix_pixel(size, p=kw["p"], nside=kw["nside"])
    if k in ("cdf", "pdf"):
        x, c, xm, pdf = table(reg)
        extra = {} if kw["kind"] == "default" else {"kind": kw["kind"]}
        if k == "cdf":
            return lambda: R.randoms_cdf(x, c, size, **extra)
        return lambda: R.randoms_pdf(xm, pdf, size, **extra)
    fn = getattr(R, "randoms_" + k)
    order = {"1d": ["xmin", "xmax"], "2d": ["mins", "maxs"], "3d": ["mins", "maxs"],
             "polar": ["r_min", "r_max", "phi_min", "phi_max"], "sphere_r": ["r_min", "r_max"],
             "usphere": ["phi_min", "phi_max", "theta_min", "theta_max"],
             "sphere": ["r_min", "r_max", "phi_min", "phi_max", "theta_min", "theta_max"]}[k]
    if reg["pos"] and all(n in kw for n in order):
        a = [kw[n] for n in order]
        return lambda: fn(size, *a)
    return lambda: fn(size, **kw)


def columns(reg, out):
    """The returned coordinates as a list of arrays."""
    return [np.asarray(out)] if reg["g"] in ("1d", "sphere_r", "cdf", "pdf") else [np.asarray(o) for o in out]


NCOL = {"1d": 1, "2d": 2, "3d": 3, "polar": 2, "sphere_r": 1, "sphere": 3, "usphere": 2, "pixel": 2, "cdf": 1, "pdf": 1}


def bounds(reg):
    """[(kind, lo, hi)] per column"""
    k, kw = reg["g"], reg["kw"]
    if k == "1d":
        return [("x", kw.get("xmin", 0.), kw.get("xmax", 1.))]
    if k in ("2d", "3d"):
        d = int(k[0])
        lo = kw["mins"]["v"] if "mins" in kw else [0.] * d
        hi = kw["maxs"]["v"] if "maxs" in kw else [1.] * d
        return [("x", a, b) for a, b in zip(lo, hi)]
    r = kw.get("r_min", 0.), kw.get("r_max", 1.)
    ph = ("x", kw.get("phi_min", 0.), kw.get("phi_max", TWOPI))
    th = ("theta", kw.get("theta_min", 0.), kw.get("theta_max", PI))
    if k == "polar":
        return [("r2",) + r, ph]
    if k == "sphere_r":
        return [("r3",) + r]
    if k == "sphere":
        return [("r3",) + r, ph, th]
    if k == "usphere":
        return [ph, th]
    if k in ("cdf", "pdf"):
        return [("x",) + tuple(float(v) for v in kw["x"])]
    raise KeyError(k)


def outside(reg, cols, size):
    """None or what is wrong with the returned points."""
    if len(cols) != NCOL[reg["g"]]:
        return "%d coordinates instead of %d" % (len(cols), NCOL[reg["g"]])
    for i, c in enumerate(cols):
        if c.shape != (size,):
            return "coordinate %d has shape %s, requested %d points" % (i, c.shape, size)
        if c.dtype.kind not in "fi":
            return "coordinate %d has type %s" % (i, c.dtype)
        if not np.isfinite(c).all():
            return "coordinate %d of point %d is %r" % (i, int(np.argmin(np.isfinite(c))), float(c[~np.isfinite(c)][0]))
    if size == 0:
        return None
    if reg["g"] == "pixel":
        phi, theta = cols
        if (theta < 0).any() or (theta > PI + 1e-15).any():
            return "theta outside [0, pi]: %r" % float(theta[(theta < 0) | (theta > PI)][0])
        off = ((phi < -1e-9) | (phi > TWOPI + 1e-9)) & (np.sin(theta) > 1e-6)   # any phi is right at a pole
        if off.any():
            return "phi outside [0, 2 pi]: %r" % float(phi[off][0])
        ns, p = reg["kw"]["nside"], reg["kw"]["p"]
        cand = geom.sky_candidates(ns, geom.sph(phi, theta), 1e-7)
        bad = ~(cand == p).any(0)
        if bad.any():
            i = int(np.argmax(bad))
            return "point %d (phi %r theta %r) is in pixel %d of nside %d, requested %d" % (
                i, float(phi[i]), float(theta[i]), int(cand[0, i]), ns, p)
        return None
    for i, (c, (kind, a, b)) in enumerate(zip(cols, bounds(reg))):
        a, b = float(a), float(b)
        if kind == "x":
            t = 4 * EPS * (abs(a) + abs(b))
            bad = (c < a - t) | (c > b + t)
        elif kind in ("r2", "r3"):
            e = 2 if kind == "r2" else 3
            t = EPS * (8 + 2 * abs(np.log(b ** e))) * b ** e    # rounding of a fractional power
            bad = (c < 0) | (c ** e < a ** e - t) | (c ** e > b ** e + t)
        else:
            z = np.cos(c)
            t = 2e-15
            bad = (c < 0) | (c > PI + 1e-15) | (z > np.cos(a) + t) | (z < np.cos(b) - t)
        if bad.any():
            j = int(np.argmax(bad))
            return "coordinate %d of point %d is %r, outside [%r, %r]" % (i, j, float(c[j]), a, b)
    return None


def uniform(reg, cols, gen):
    """Map points to the unit cube so that correct draws are uniform there: list of arrays, or None per column."""
    k = reg["g"]
    if k == "pixel":
        phi, theta = cols
        ns, p = reg["kw"]["nside"], reg["kw"]["p"]
        sub = 16
        while ns * sub > 8192:
            sub //= 2
        q = hp.ang2pix(ns * sub, theta, phi, nest=True)
        base = int(hp.ring2nest(ns, p)) * sub * sub
        q = q - base
        ok = (q >= 0) & (q < sub * sub)
        if (~ok).sum() > 5 + 1e-4 * len(q):
            return None
        q = np.where(ok, q, 0).astype(np.int64)
        x = np.zeros(len(q), np.int64)
        y = np.zeros(len(q), np.int64)
        for b in range(8):
            x |= ((q >> (2 * b)) & 1) << b
            y |= ((q >> (2 * b + 1)) & 1) << b
        return [(x + gen.random(len(q))) / sub, (y + gen.random(len(q))) / sub]
    if k in ("cdf", "pdf"):
        x, c, _, _ = table(reg)
        if reg["kw"]["kind"] == "linear":
            return [np.interp(cols[0], x, c)]
        # smooth monotone interpolation keeps the probability of every bin
        j = np.clip(np.searchsorted(x, cols[0]) - 1, 0, len(c) - 2)
        return [c[j] + (c[j + 1] - c[j]) * gen.random(len(j))]
    out = []
    for c, (kind, a, b) in zip(cols, bounds(reg)):
        a, b = float(a), float(b)
        if kind == "x":
            out.append((c - a) / (b - a))
        elif kind == "theta":
            out.append((np.cos(a) - np.cos(c)) / (np.cos(a) - np.cos(b)))
        else:
            e = 2 if kind == "r2" else 3
            out.append((c ** e - a ** e) / (b ** e - a ** e))
    return out


def resolvable(reg):
    """whether the map to the unit cube is accurate in double precision"""
    if reg["g"] == "pixel":
        return True
    for kind, a, b in bounds(reg):
        a, b = float(a), float(b)
        if kind == "theta":
            if np.cos(a) - np.cos(b) < 1e-9:
                return False
        elif abs(b - a) < 1e-7 * (abs(a) + abs(b)):
            return False
    return True
