"""Calls of magpie's function library as data.

A call is {"fn": "coords.cart2polar", "a": [arg, ...], "k": {name: arg}, "g": group}; an argument is a plain value,
{"arr": spec}, {"list": [...]}, {"tuple": [...]} or {"np": value}.
"""
import json

import numpy as np

from . import boot, geom, rand

PI, TWOPI = geom.PI, geom.TWOPI


def arg(d, pool=None):
    """The value of an argument description; equal array descriptions share one array through pool."""
    if isinstance(d, dict):
        if "arr" in d:
            if pool is None:
                return geom.mk(d["arr"])
            k = json.dumps(d, sort_keys=True)
            if k not in pool:
                pool[k] = geom.mk(d["arr"])
            return pool[k]
        if "list" in d:
            if pool is None:
                return [arg(x) for x in d["list"]]
            k = json.dumps(d, sort_keys=True)
            if k not in pool:
                pool[k] = [arg(x, pool) for x in d["list"]]
            return pool[k]
        if "tuple" in d:
            return tuple(arg(x, pool) for x in d["tuple"])
        if "np" in d:
            return np.float64(d["np"])
    return d


def build(c, pool=None):
    """(function performing the call, its argument values)"""
    m = boot.magpie
    fn = m
    for p in c["fn"].split("."):
        fn = getattr(fn, p)
    a = [arg(x, pool) for x in c["a"]]
    k = {n: arg(x, pool) for n, x in c["k"].items()}
    return (lambda: fn(*a, **k)), a + list(k.values())


# ------------------------------------------------------------------------------- argument makers

def arr(rng, shape, kind="rand", **k):
    s = {"shape": list(shape), "seed": rng.seed(), "kind": kind}
    s.update(k)
    if rng.chance(.15):
        s["layout"] = rng.choice(["S", "R", "F"])
    if rng.chance(.3):
        s["readonly"] = True
    return {"arr": s}


def size(rng):
    if rng.fixed:
        return rng.fixed
    if not rng.big:
        return rng.weighted([(rng.int(1, 8), 6), (rng.int(8, 40), 2), (rng.int(40, 200), .5)])
    return rng.weighted([(rng.int(1, 8), 60), (rng.int(8, 40), 20), (rng.int(40, 200), 5), (rng.int(200, 5000), 2),
                         (rng.choice([256, 257, 512, 1000, 1024, 1025, 2048, 4096, 4097]), 1.5)])


def few(rng, lo, hi):
    """how many points of a call that goes through them one at a time, now and then many"""
    return rng.int(lo, hi) if not rng.big or rng.chance(.98) else rng.int(hi, 300)


def seq(rng, vals):
    t = rng.weighted([("list", 6), ("tuple", 2)])
    return {t: vals}


def center(rng, n):
    return seq(rng, [rng.choice([0., rng.uniform(-2, 2), 1., -1.5]) for _ in range(n)])


def phis(rng, n, scalar=False):
    if scalar:
        return rng.uniform(0, TWOPI)
    return arr(rng, [n], "range", lo=0., hi=TWOPI)


def thetas(rng, n, scalar=False):
    if scalar:
        return rng.uniform(0, PI)
    return arr(rng, [n], "range", lo=0., hi=PI)


def inc(rng, n, lo, hi):
    return {"arr": {"shape": [n], "kind": rng.choice(["lin", "lin", "sorted"]), "lo": lo, "hi": hi, "seed": rng.seed(),
                    "readonly": rng.chance(.3)}}


def lin(rng, n, lo, hi):
    return {"arr": {"shape": [n], "kind": "lin", "lo": lo, "hi": hi, "readonly": rng.chance(.3)}}


def pixels(rng, nside, scalar):
    n = 12 * nside * nside
    if scalar:
        return rng.int(0, n - 1)
    m = rng.choice([n, rng.int(1, n)]) if n <= 768 else 50
    if m == n:
        return {"arr": {"shape": [m], "kind": "lin", "lo": 0, "hi": n - 1, "dtype": "int64"}}
    return {"arr": {"shape": [m], "kind": "range", "lo": 0, "hi": n - .5, "seed": rng.seed(), "dtype": "int64"}}


def nside_of(rng):
    return rng.choice([1, 2, 3, 4, 5, 8, 16]) if rng.chance(.95) else rng.choice([32, 64, 100, 256, 1024, 8192])


# --------------------------------------------------------------------------------------- entries

ENTRIES = []


def entry(group, weight=1., **flags):
    def deco(f):
        ENTRIES.append((f, group, weight, flags))
        return f
    return deco


@entry("coords", 1.5)
def cart2polar(rng):
    n, s = size(rng), rng.chance(.25)
    mk = (lambda: rng.uniform(-3, 3)) if s else (lambda: arr(rng, [n], scale=3.))
    k = {"center": center(rng, 2)} if rng.chance(.6) else {}
    if not s and rng.chance(.2):
        sh = [rng.int(1, 4), rng.int(1, 5)]
        mk = lambda: arr(rng, sh, scale=3.)
    return "coords.cart2polar", [mk(), mk()], k


@entry("coords")
def polar2cart(rng):
    n, s = size(rng), rng.chance(.25)
    k = {"center": center(rng, 2)} if rng.chance(.6) else {}
    return "coords.polar2cart", [rng.uniform(0, 3) if s else arr(rng, [n], "pos"), phis(rng, n, s)], k


@entry("coords", 1.5)
def cart2sphere(rng):
    n, s = size(rng), rng.chance(.25)
    mk = (lambda: rng.uniform(-3, 3)) if s else (lambda: arr(rng, [n], scale=3.))
    k = {"center": center(rng, 3)} if rng.chance(.6) else {}
    return "coords.cart2sphere", [mk(), mk(), mk()], k


@entry("coords")
def sphere2cart(rng):
    n, s = size(rng), rng.chance(.25)
    k = {"center": center(rng, 3)} if rng.chance(.6) else {}
    return "coords.sphere2cart", [rng.uniform(0, 3) if s else arr(rng, [n], "pos"), phis(rng, n, s), thetas(rng, n, s)], k


@entry("coords")
def ortho2cart(rng):
    n = size(rng)
    k = {}
    if rng.chance(.5):
        k["r"] = rng.choice([1., 2., .7])
    if rng.chance(.4):
        k["fill_value"] = rng.choice([0., -1.])
    if rng.chance(.15):
        return "coords.ortho2cart", [rng.uniform(-.6, .6), rng.uniform(-.6, .6)], k
    return "coords.ortho2cart", [arr(rng, [n]), arr(rng, [n])], k


@entry("coords", 1.5)
def healpix_xy2ang(rng):
    n, s = size(rng), rng.chance(.3)
    if s:
        return "coords.healpix_xy2ang", [rng.uniform(0, TWOPI), rng.weighted([
            (rng.uniform(-PI / 2 + .01, PI / 2 - .01), 8), (PI / 2, 1), (-PI / 2, 1)])], {}
    if rng.chance(.4):              # poles among them
        return "coords.healpix_xy2ang", [phis(rng, n), arr(rng, [n], "range", lo=-PI / 2, hi=PI / 2, ends=True)], {}
    return "coords.healpix_xy2ang", [phis(rng, n), arr(rng, [n], "range", lo=-PI / 2 + .01, hi=PI / 2 - .01)], {}


@entry("coords", 1.5)
def healpix_ang2xy(rng):
    n, s = size(rng), rng.chance(.3)
    if not s and rng.chance(.3):
        return "coords.healpix_ang2xy", [phis(rng, n), arr(rng, [n], "range", lo=0., hi=PI, ends=True)], {}
    return "coords.healpix_ang2xy", [phis(rng, n, s), thetas(rng, n, s)], {}


@entry("coords", .5)
def usphere_area(rng):
    a, b = rng.uniform(0, 5), rng.uniform(0, 2)
    return "coords.usphere_area", [a, rng.uniform(a + .1, TWOPI), b, rng.uniform(b + .1, PI)], {}


@entry("coords", .5)
def lonlat(rng):
    n, s = size(rng), rng.chance(.25)
    return rng.choice(["coords.sphere2lonlat", "coords.lonlat2sphere"]), [thetas(rng, n, s)], {}


@entry("coords")
def rotate_polar(rng):
    n = size(rng)
    sh = [n] if n < 4 or rng.chance(.7) else [2, n // 2]
    by = rng.weighted([(rng.uniform(.01, 6.28), 6), (PI, 1), (float(np.nextafter(TWOPI, 0.)), .5), (1e-300, .3)])
    return "coords.rotate_polar", [arr(rng, sh, "range", lo=0., hi=TWOPI), by], {}


@entry("coords", 1.5)
def rotate_polar_grid(rng):
    p, r = rng.int(2, 9), rng.int(1, 6)
    if rng.big and rng.chance(.08):
        p, r = rng.int(2, 70), rng.int(1, 30)
    if rng.fixed:
        p, r = max(rng.fixed // 10, 2), 10
    full = rng.chance(.6)
    e = lin(rng, p + 1, 0. if full else .2, TWOPI if full else rng.uniform(1., 6.))
    hi = e["arr"]["hi"] - e["arr"]["lo"]
    by = rng.uniform(.01, min(hi, 6.2))
    if rng.chance(.2):
        by = min(hi / p * rng.int(1, p), 6.2)
    return "coords.rotate_polar_grid", [e, arr(rng, [p, r]), by], {}


@entry("coords", 2.)
def usphere_rotate(rng):
    n, s = few(rng, 1, 12), rng.chance(.25)
    k = {}
    if rng.chance(.6):
        k = {"phi_start": rng.uniform(0, 6.2), "theta_start": rng.uniform(.01, 3.1)}
    a, b = rng.uniform(0, 6.2), rng.uniform(.01, 3.1)
    if k and rng.chance(.3):
        a = k["phi_start"]
        b = k["theta_start"] if rng.chance(.4) else b
    return "coords.usphere_rotate", [phis(rng, n, s), thetas(rng, n, s), a, b], k


@entry("coords", 2.)
def usphere_phi_shift(rng):
    n, s = size(rng), rng.chance(.25)
    return "coords.usphere_phi_shift", [phis(rng, n, s), rng.choice([rng.uniform(-6.2, 6.2), rng.uniform(-6.2, 6.2), 0., rng.choice([-TWOPI, TWOPI])])], {}


@entry("coords", 2.)
def usphere_shift(rng):
    n, s = few(rng, 1, 12), rng.chance(.25)
    t, f = rng.uniform(.01, 3.1), rng.uniform(0, 6.2)
    return "coords.usphere_shift", [phis(rng, n, s), thetas(rng, n, s), f, t, f if rng.chance(.15) else rng.uniform(0, 6.2),
                                    t if rng.chance(.3) else rng.uniform(.01, 3.1)], {}


@entry("coords", 2.)
def usphere_spin(rng):
    n, s = few(rng, 1, 8), rng.chance(.25)
    return "coords.usphere_spin", [phis(rng, n, s), thetas(rng, n, s), rng.uniform(0, 6.2),
                                   rng.choice([0., rng.uniform(.01, 3.1)]),
                                   rng.weighted([(rng.uniform(0, 6.28), 5), (0., 1), (TWOPI, .5)])], {}


@entry("grids")
def grid1d(rng):
    k = {}
    if rng.chance(.6):
        k["xmin"] = rng.uniform(-2, 2)
    fn = rng.choice(["grid1d", "get_xedges"])
    if fn == "grid1d" and rng.chance(.5):
        k["return_edges"] = True
    return "grids." + fn, [rng.uniform(.1, 5), rng.int(1, 20)], k


@entry("grids")
def mids(rng):
    n = size(rng) + 1
    return rng.choice(["grids.xedges2mid", "grids.xmid2edges"]), [inc(rng, n, 0., 3.)], {}


@entry("grids", 2.)
def gridnd(rng):
    d = rng.choice([2, 3])
    k = {}
    if rng.chance(.5):
        k["mins"] = seq(rng, [rng.uniform(-2, 2) for _ in range(d)])
    if rng.chance(.5):
        k["return1d"] = True
    le = rng.uniform(.1, 4) if rng.chance(.4) else seq(rng, [rng.uniform(.1, 4) for _ in range(d)])
    ng = rng.int(1, 6) if rng.chance(.4) else seq(rng, [rng.int(1, 6) for _ in range(d)])
    return "grids.grid%dd" % d, [le, ng], k


@entry("grids", 2.)
def polargrids(rng):
    c = rng.int(0, 3)
    if c == 0:
        return "grids.polargrid", [rng.int(1, 8), rng.int(1, 8)], {"rmax": rng.uniform(.5, 3), "return1d": rng.chance(.5)}
    k = {"base_nphi": rng.int(1, 6)} if rng.chance(.5) else {}
    if c == 3:
        return "grids.polarEA_npix", [rng.int(1, 6)], k
    if rng.chance(.5):
        k["rmax"] = rng.uniform(.5, 3)
    return ["", "grids.polarEA_grid", "grids.polarEA_area"][c], [rng.int(1, 6)], k


@entry("one_d", 3.)
def rebin_1d(rng):
    n, m = rng.int(2, 12), rng.int(1, 8)
    k = {}
    if rng.chance(.4):
        k["w"] = arr(rng, [n], "pos")
    if rng.chance(.4):
        k["sigma"] = arr(rng, [n], "pos")
    e = inc(rng, n + 1, 0., 4.)
    if rng.chance(.15):
        return "one_d.rebin_1d", [e, arr(rng, [n]), json.loads(json.dumps(e))], k
    if rng.chance(.25):             # new bins beyond the old ones on one side, some or all of them
        a, b = rng.choice([(4.1, 6.), (1., 7.), (-3., -.1), (-3., 2.)])
        return "one_d.rebin_1d", [e, arr(rng, [n]), inc(rng, m + 1, a, b)], k
    return "one_d.rebin_1d", [e, arr(rng, [n]), inc(rng, m + 1, rng.uniform(0, 1), rng.uniform(2, 4))], k


@entry("one_d", .7)
def rebin_weights(rng):
    a = rng.uniform(0, 2)
    return "one_d.rebin_1d_single_bin_weights", [inc(rng, rng.int(3, 12), 0., 4.), a, rng.uniform(a + .1, 4.)], {}


@entry("pixel", 2.)
def shapes(rng):
    c = rng.int(0, 3)
    if c == 0:
        return "pixel.get_square", [rng.uniform(-2, 0), rng.uniform(.1, 2), rng.uniform(-2, 0), rng.uniform(.1, 2)], \
            {"steps": 4 * rng.int(1, 12)} if rng.chance(.7) else {}
    k = {}
    if rng.chance(.5):
        k["center"] = center(rng, 3 if c == 3 else 2)
    if c == 1:
        k["steps"] = rng.int(2, 30)
        return "pixel.get_arc", [rng.uniform(.1, 3)], k
    if c == 2:
        k["steps"] = 4 * rng.int(1, 12)
        return "pixel.get_disc", [rng.uniform(0, 1), rng.uniform(1.1, 3)], k
    k["steps"] = 12 * rng.int(2, 8)
    if rng.chance(.5):
        k["return_nearest"] = True
        k["center"] = seq(rng, [rng.uniform(3, 5) * rng.choice([-1, 1]) for _ in range(3)])
        if rng.chance(.3):          # level with a face, within the box, or where it is by default
            k["center"] = seq(rng, [rng.choice([-1., 1., 0., .1, 3., -4.]) for _ in range(3)])
        elif rng.chance(.15):
            del k["center"]
            return "pixel.get_box", [rng.choice([0., -1., .5]), 1., rng.choice([0., .2]), 1., rng.choice([0., -1.]), 1.], k
    return "pixel.get_box", [-1., 1., -rng.uniform(.5, 2), 1., -1., rng.uniform(.2, 2)], k


@entry("pixel", 3.)
def boundary(rng):
    ns = nside_of(rng)
    fn = rng.choice(["healpix_boundary", "healpix_boundary_top", "healpix_boundary_bot"])
    k = {}
    if rng.chance(.6):
        k["steps"] = rng.int(4, 40)
    if rng.chance(.4):
        k["reverse"] = True
    return "pixel." + fn, [pixels(rng, ns, True), ns], k


@entry("pixel", 3.)
def index(rng):
    ns = nside_of(rng)
    fn = rng.choice(["healpix_pix2ij", "healpix_pix2xy"])
    return "pixel." + fn, [pixels(rng, ns, rng.chance(.3)), ns], {}


@entry("pixel", 3.)
def index_ij(rng):
    ns = nside_of(rng)
    n = size(rng)
    s = rng.chance(.3)
    i = rng.int(1, 4 * ns - 1) if s else arr(rng, [n], "range", lo=1, hi=4 * ns - .01, dtype="int64")
    fn = rng.choice(["healpix_ij2pix", "healpix_j2jd", "healpix_i2id", "healpix_ij2xy"])
    if fn == "healpix_i2id":
        return "pixel." + fn, [i, ns], {}
    return "pixel." + fn, [i, 1 if s else arr(rng, [n], "range", lo=1, hi=4.99, dtype="int64"), ns], {}


@entry("pixel", 1.5)
def index_star(rng):
    ns = rng.choice([2, 4, 8])
    c = rng.int(0, 2)
    n = size(rng)
    if c == 0:
        return "pixel.healpix_ijd2ijs", [arr(rng, [n], "range", lo=-1., hi=ns), arr(rng, [n], "range", lo=0., hi=4. * ns), ns], {}
    if c == 1:
        return "pixel.healpix_ijs2ijd", [arr(rng, [n], "range", lo=0, hi=4 * ns, dtype="int64"),
                                         arr(rng, [n], "range", lo=0, hi=4 * ns, dtype="int64"), ns], {}
    return "pixel.healpix_ijs_neighbours", [rng.int(0, 4 * ns), rng.int(0, 4 * ns), ns], {}


@entry("polar", 3.)
def polar(rng):
    c = rng.int(0, 3)
    r, p = rng.int(1, 6), rng.int(1, 8)
    if c == 0:
        return "polar.get_polar_area2d", [inc(rng, r + 1, .1, 3.), lin(rng, p + 1, 0., TWOPI)], {}
    if c == 1:
        return "polar.get_pixarea", [lin(rng, r + 1, 0., 3.), lin(rng, p + 1, 0., 2.)], {}
    k = {}
    if c == 2:
        if rng.chance(.5):
            k["sigma"] = arr(rng, [r], "pos")
        return "polar.cumulative_radial", [inc(rng, r + 1, 0., 3.), arr(rng, [r])], k
    if rng.chance(.5):
        k["sigma"] = arr(rng, [p, r], "pos")
    if rng.chance(.5):
        k["w"] = arr(rng, [p, r], "pos")
    return "polar.polar2radial", [arr(rng, [p, r]), arr(rng, [p, r], "pos"), rng.uniform(.01, 1)], k


@entry("remap", 4.)
def grid2grid(rng):
    d = rng.choice([1, 2, 2, 3])
    sh = [rng.int(1, 12 if d == 1 else 6) for _ in range(d)]
    k = {}

    def each(a, b):
        if d == 1 or rng.chance(.4):
            return rng.uniform(a, b)
        return seq(rng, [rng.uniform(a, b) for _ in range(d)])
    if rng.chance(.4):
        k["origin"] = each(-1, 1)
    if rng.chance(.4):
        k["originout"] = each(-1, 1)
    if rng.chance(.4):
        k["boxsizeout"] = each(.5, 3)
    ng = rng.int(1, 12 if d == 1 else 6) if d == 1 or rng.chance(.4) else seq(rng, [rng.int(1, 6) for _ in range(d)])
    if rng.chance(.12):          # onto the same grid
        ng = sh[0] if d == 1 else {"list": list(sh)}
        k = {x: k[x] for x in k if x == "origin"}
        if k:
            k["originout"] = k["origin"]
    return "remap.grid2grid%dD" % d, [arr(rng, sh), each(.5, 3), ng], k


@entry("src", 2.)
def fortran(rng):
    c = rng.int(0, 7)
    if c >= 5:
        d = c - 4
        if d == 1:
            n, m = rng.int(1, 8), rng.int(1, 8)
            return "src.remap_1d_grid2grid_pixel", [0., 2., n, rng.choice([0., rng.uniform(-1, 2)]), 2.5, m, rng.int(0, m - 1), 12], {}
        a, out = [], []
        sh = [rng.int(1, 6 if d == 2 else 4) for _ in range(d)]
        for n in sh:
            a += [0., 2., n]
        for _ in range(d):
            out += [rng.choice([0., rng.uniform(-1, 1)]), 2.5, rng.int(1, 6 if d == 2 else 4)]
        return "src.remap_%dd_grid2grid" % d, a + out + [12] * d + [arr(rng, [int(np.prod(sh))])], {}
    if c == 0:
        return "src.get_remap_pix_len", [0., rng.uniform(1, 3), rng.int(1, 10), 0., rng.uniform(1, 3), rng.int(1, 10)], {}
    if c == 1:
        return "src.which_pix", [0., rng.uniform(.1, 1), rng.uniform(0, 5)], {}
    if c == 2:
        n, m = rng.int(1, 5), rng.int(1, 5)
        return "src.pix1dto2d", [arr(rng, [n], "range", lo=0, hi=6, dtype="int32"),
                                 arr(rng, [m], "range", lo=0, hi=6, dtype="int32"), 7], {}
    if c == 3:
        n, m, q = rng.int(1, 4), rng.int(1, 4), rng.int(1, 4)
        return "src.pix1dto3d", [arr(rng, [n], "range", lo=0, hi=6, dtype="int32"), arr(rng, [m], "range", lo=0, hi=6, dtype="int32"),
                                 arr(rng, [q], "range", lo=0, hi=6, dtype="int32"), 7, 7], {}
    g1, g2 = rng.int(1, 8), rng.int(1, 8)
    return "src.remap_1d_grid2grid", [0., 2., 0., 2., g2, 12, arr(rng, [g1])], {}


@entry("utils", 1.)
def utils(rng):
    return "utils.is_pos_monotonic", [arr(rng, [size(rng)], rng.choice(["rand", "sorted"]))], {}


@entry("utils", 1., stdout=True)
def progress(rng):
    n = rng.int(1, 60)
    k = {"explanation": rng.choice([None, "Remapping"]), "indexing": rng.chance(.4)}
    if rng.chance(.5):
        k["num_refresh"] = rng.int(1, 80)
    return "utils.progress_bar", [rng.int(0, n - 1), n], k


@entry("randoms", .7)
def pdf2cdf(rng):
    n = rng.int(2, 12)
    if rng.chance(.25):
        return "randoms.pdf2cdf", [lin(rng, n, 0., n - 1.), arr(rng, [n], "unit")], {"return_normpdf": rng.chance(.7)}
    return "randoms.pdf2cdf", [lin(rng, n, 0., 2.), arr(rng, [n], "pos")], {"return_normpdf": rng.chance(.5)}


@entry("randoms", 5., random=True)
def draws(rng):
    k = rng.choice(["1d", "2d", "3d", "polar", "sphere_r", "sphere", "usphere"])
    kw = {}
    n = rng.int(0, 30)
    if rng.big and rng.chance(.1):
        n = rng.weighted([(rng.int(30, 300), 4), (rng.int(300, 5000), 2), (rng.choice([256, 1000, 1024, 1025, 4096, 10000]), 1)])
    if k in ("polar", "sphere_r", "sphere") and rng.chance(.6):
        kw = {"r_min": rng.uniform(0, 1), "r_max": rng.uniform(1.1, 3)}
    if k in ("polar", "sphere", "usphere") and rng.chance(.6):
        kw.update(phi_min=rng.uniform(0, 2), phi_max=rng.uniform(2.1, 6))
    if k in ("sphere", "usphere") and rng.chance(.6):
        kw.update(theta_min=rng.uniform(0, 1), theta_max=rng.uniform(1.1, 3))
    if k == "1d" and rng.chance(.6):
        kw.update(xmin=rng.uniform(-2, 0), xmax=rng.uniform(.1, 2))
    if k in ("2d", "3d") and rng.chance(.6):
        d = int(k[0])
        kw.update(mins=seq(rng, [rng.uniform(-2, 0) for _ in range(d)]), maxs=seq(rng, [rng.uniform(.1, 2) for _ in range(d)]))
    return "randoms.randoms_" + k, [n], kw


@entry("randoms", 2., random=True)
def draw_pixel(rng):
    ns = nside_of(rng)
    return "randoms.randoms_healpix_pixel", [few(rng, 1, 20), pixels(rng, ns, True), ns], {}


@entry("randoms", 2., random=True)
def draw_pdf(rng):
    n = rng.int(5, 12)
    k = {"kind": "linear"} if rng.chance(.6) else {}
    return "randoms.randoms_pdf", [lin(rng, n, 0., 2.), arr(rng, [n], "pos"), few(rng, 1, 20)], k


@entry("randoms", 4., random=True)
def subsample(rng):
    fn = rng.choice(["shuffle", "random_draw", "random_prob_draw", "random_prob_draw", "stochastic_integer_weights",
                     "stochastic_binary_weights"])
    n = rng.int(1, 20) if not rng.big or rng.chance(.96) else rng.choice([rng.int(20, 3000), 256, 257, 1000, 1024])
    if rng.chance(.05):
        n = rng.int(1, 2)
    if fn.startswith("stoch"):
        if rng.chance(.3):
            return "randoms." + fn, [rng.uniform(0, 3)], {}
        return "randoms." + fn, [arr(rng, [n], "range", lo=0., hi=3.)], {}
    s = arr(rng, [n]) if rng.chance(.6) else arr(rng, [n, 2])
    if fn == "shuffle":
        return "randoms." + fn, [s], {}
    if fn == "random_draw":
        return "randoms." + fn, [s, rng.int(0, n - 1)], {}
    k = {"size": rng.int(1, max(n - 1, 1))} if rng.chance(.5) else {}
    return "randoms." + fn, [s, arr(rng, [n], "pos")], k


def special(rng, a, k):
    """Makes one array of a call special: whole numbers, all members equal, another type of numbers."""
    slots = [v["arr"] for v in list(a) + [k[i] for i in sorted(k)] if isinstance(v, dict) and "arr" in v]
    slots = [v for v in slots if v.get("kind", "rand") not in ("lin", "sorted") and "dtype" not in v]
    if slots:
        for v in slots if rng.chance(.4) else [rng.choice(slots)]:
            t = rng.weighted([("round", 4), ("same", 3), ("whole", 2), ("both", 1), ("float32", 1)])
            if t == "float32":
                v["dtype"] = t
            else:
                if t in ("same", "both"):
                    v["same"] = True
                if t != "same":
                    v["round"] = True
                    if v.get("kind") == "pos":
                        v["scale"] = 10.
                if t == "whole":
                    v["dtype"] = "int64"


def gen(rng, random=None, stdout=True, groups=None):
    """A call; random: True only samplers, False no samplers, None any."""
    es = [(e, e[2]) for e in ENTRIES if (random is None or bool(e[3].get("random")) == random) and
          (stdout or not e[3].get("stdout")) and (groups is None or e[1] in groups)]
    f, group, _, flags = rng.weighted(es)
    fn, a, k = f(rng)
    if rng.chance(.15):
        special(rng, a, k)
    return {"fn": fn, "a": a, "k": k, "g": group, "random": bool(flags.get("random"))}


def invalid(rng, c):
    """The same call with one argument made unusable (only for checks of what a failing call leaves behind)."""
    c = json.loads(json.dumps(c))
    if c["a"]:
        i = rng.int(0, len(c["a"]) - 1)
        c["a"][i] = rng.choice([None, "x", {"list": []}])
    return c


def vary(rng, c):
    """The same call with other contents in its arrays (shapes and types as they are)."""
    c = json.loads(json.dumps(c))
    specs = []

    def walk(v):
        if isinstance(v, dict):
            if "arr" in v:
                specs.append(v["arr"])
            for x in v.values():
                walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    walk([c["a"], c["k"]])
    for s in specs:
        if "seed" in s and rng.chance(.8):
            s["seed"] = rng.seed()
        if rng.chance(.2):
            s["flip"] = True
        s.pop("readonly", None)
    return c


def odd(rng, c):
    """The same call with a number in it out of its usual range (often refused, sometimes legal)."""
    c = json.loads(json.dumps(c))
    slots = [(c["a"], i) for i, v in enumerate(c["a"]) if isinstance(v, (int, float))] + \
        [(c["k"], i) for i in sorted(c["k"]) if isinstance(c["k"][i], (int, float))]
    slots = [(d, i) for d, i in slots if not isinstance(d[i], bool)]
    if slots:
        d, i = rng.choice(slots)
        v = d[i]
        d[i] = rng.choice([0, -1, -v, 2 * v + 7] if isinstance(v, int) else [-1., -v, v + 7., float("nan"), 0.])
    return c
