"""C21: rotated polar maps show what the map shows that much further round, on the grid currently set up."""
import numpy as np

from .. import geom, hist, runner
from ..hist import must
from ..kernel import Violation
from . import c15

TURN = 2. * np.pi


def make(op, shape):
    """the map of an operation"""
    g = np.random.Generator(np.random.PCG64(op["s"]))
    k = op["f"]
    if k == "index":
        f = np.arange(float(np.prod(shape))).reshape(shape)
    elif k == "int":
        f = g.integers(-50, 50, shape)
    elif k == "row":                    # all in one row
        f = np.zeros(shape)
        f[g.integers(0, shape[0])] = g.uniform(1, 2, shape[1])
    elif k == "spread":                 # of very different sizes
        f = g.choice([-1., 1.], shape) * 10. ** g.uniform(-30, 30, shape)
    elif k == "f4":
        f = g.uniform(-1, 1, shape).astype(np.float32)
    else:
        f = g.uniform(-1, 1, shape)
        if k in ("nan", "inf"):
            f[tuple(g.integers(0, n) for n in shape)] = np.nan if k == "nan" else -np.inf
    if op["form"] == "fortran":
        f = np.asfortranarray(f)
    elif op["form"] == "strided":
        f = np.repeat(f, 2, axis=1)[:, ::2]
    elif op["form"] == "flipped":
        f = np.ascontiguousarray(f[::-1])[::-1]
    elif op["form"] == "ro":
        f.setflags(write=False)
    return f


def shift_of(op, dp):
    k, u, n = op["shift"]
    if k == "any":
        s = u * TURN
    elif k == "rows":                   # a whole number of rows
        s = n * dp
    elif k == "near":
        s = n * dp * (1. + (u - .5) * 1e-7)
    elif k == "part":
        s = u * dp
    elif k == "tiny":
        s = 10. ** (-12. * u)
    elif k == "int":
        s = 1 + n % 6
    else:
        s = TURN * (1. - 10. ** (-1. - 14. * u))
    return s if 0. < s < TURN else .7


def rotated(f, s, dp, full):
    """(expected rows, rows that are specified, rows free of non-finite cells)"""
    N = len(f)
    n = int(np.floor(s / dp))
    w = s / dp - n
    i = np.arange(N) + n
    known = np.ones(N, bool) if full else i + 1 <= N - 1
    f = np.asarray(f, float)
    z = np.where(np.isfinite(f), f, 0.)
    e = (1. - w) * z[i % N] + w * z[(i + 1) % N]
    fin = np.isfinite(f)
    used = fin[i % N] & fin[(i + 1) % N]
    if w < 1e-6:
        used &= fin[(i - 1) % N]
    if w > 1. - 1e-6:
        used &= fin[(i + 2) % N]
        if not full:
            known &= i + 2 <= N - 1
    mag = np.max([np.abs(z[(i + k) % N]) for k in (-1, 0, 1, 2)], axis=0)
    return e, known, used, mag


class World(c15.World):
    prop = "C21"
    runs = {"quick": 4000, "thorough": 120000}
    cap = {"quick": 75, "thorough": 800}
    rule = ("a run is non-trivial when a rotation was judged after the grids had changed, after a clean, after another object's "
            "calls or after a call cut short by a fault")
    measure = "distinct (caller, preceding operation, map, form, shift, whole turn) situations plus distinct fault sites"
    real = ["magpie.densegrid and magpie.montecarlo ring remappers", "magpie.coords", "numpy", "healpy"]
    assumptions = ["agreement to 1e-9 of the largest value in the cells used", "rows of a part of a turn that would need cells "
                   "from beyond its end are not judged", "shifts are between 0 and a whole turn, both excluded"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)
    unweighted = True

    def profile(self, rng, o):
        op = {"t": "profile", "o": o, "s": rng.seed(), "call": rng.weighted([("method", 8), ("edges", 2), ("angles", 2)]),
              "f": rng.weighted([("rand", 5), ("index", 2), ("int", 1), ("row", 2), ("spread", 1), ("f4", 1), ("nan", 1),
                                 ("inf", .5)]),
              "form": rng.weighted([("plain", 5), ("fortran", 1), ("strided", 1), ("flipped", 1), ("ro", 2)]),
              "wrong": rng.weighted([(None, 6), ("last", 1), ("T", .5), ("row", .5)]),
              "again": rng.int(0, 2) if rng.chance(.3) else 0,
              "shift": [rng.weighted([("any", 5), ("rows", 3), ("near", 1), ("part", 3), ("tiny", 1), ("int", .5), ("late", 1)]),
                        rng.u(), rng.int(1, 12)]}
        if op["call"] == "edges":
            op["N"] = rng.weighted([(rng.int(1, 9), 6), (rng.int(10, 400), 1)])
            op["M"] = rng.int(1, 6)
            op["range"] = rng.choice([[0., TURN], [0., TURN], [-np.pi, np.pi], [rng.uniform(0., 3.), rng.uniform(3.1, 6.2)]])
        if rng.chance(.25):
            op["fault"] = hist.gen_fault(rng)
        return op

    def call(self, sim, op, fn, desc, judge):
        if op.get("fault"):
            r, p, f = sim.faulty(fn, op["fault"])
            op["fault"] = f
            if r.ok:
                judge(r.value, desc + " (hit by a fault)")
        r = sim.call(fn)
        must(r.ok, "rotation-fails", "%s: %s" % (desc, r.describe()))
        judge(r.value, desc)
        return r.value

    def check(self, sim, ob, op, step, last, o):
        from magpie import coords
        c = op["call"]
        if c == "angles":
            self.angles(sim, op, coords)
        elif c == "edges":
            pe = np.linspace(op["range"][0], op["range"][1], op["N"] + 1)
            self.rotate(sim, op, lambda f, s: coords.rotate_polar_grid(pe, f, s), (op["N"], op["M"]), op["range"],
                        "step %d: rotate_polar_grid of %d rows from %r to %r" % (step, op["N"], *op["range"]))
        else:
            k = ob.tgt["kw"]
            d = lambda n: k.get(n, geom.DEFAULTS[n])
            rng = [d("pmin"), d("pmax")] if "Box" in ob.kind else [d("beta_min"), d("beta_max")]
            desc = "step %d: %s.rotate_polar after %s, grid %s" % (step, ob.kind, last[o], k)
            shape = ob.tgt_shape()
            self.rotate(sim, op, ob.real.rotate_polar, shape, rng, desc)
            w = op["wrong"]
            if w:
                bad = {"T": shape[::-1], "row": (shape[0] + 1, shape[1]), "last": getattr(ob, "before", shape)}[w]
                if bad != shape:
                    r = sim.call(lambda: ob.real.rotate_polar(np.ones(bad), .5))
                    must(not r.ok, "wrong-shape", "%s: a map of shape %s is rotated on a grid of shape %s" % (desc, bad, shape))
                    sim.stats["maps refused"] += 1
            ob.before = shape
        if last[o] != "start" and not last[o].startswith("setup"):
            sim.nontrivial = True
        full = c == "angles" or (op["range"] if c == "edges" else rng)[1] - (op["range"] if c == "edges" else rng)[0] == TURN
        sim.note(c, ob.kind if c == "method" else None, last[o], op["f"], op["form"], op["shift"][0], full)
        sim.stats["rotations judged"] += 1
        if c == "method":
            last[o] = "rotation"

    def rotate(self, sim, op, fn, shape, rng, desc):
        full = rng[1] - rng[0] == TURN
        dp = (rng[1] - rng[0]) / shape[0]
        f = make(op, shape)
        for i in range(op["again"] + 1):
            s = shift_of(dict(op, shift=[op["shift"][0], (op["shift"][1] + .37 * i) % 1, op["shift"][2]]), dp)
            before = f.copy()
            e, known, used, mag = rotated(before, s, dp, full)
            tol = 1e-9 * mag + (1e-6 * mag if f.dtype == np.float32 else 0.)

            def judge(got, msg):
                if not isinstance(got, np.ndarray) or got.shape != shape:
                    raise Violation("malformed", "%s by %r gives %r" % (msg, s, got))
                must(simsame(f, before), "map-changed", "%s by %r changed the map it was given" % (msg, s))
                must(not np.shares_memory(got, f), "shared", "%s by %r returns memory of the map it was given" % (msg, s))
                with np.errstate(all="ignore"):
                    bad = (~(np.abs(got - e) <= tol)) & known[:, None] & used
                if bad.any():
                    i, j = (int(x) for x in np.argwhere(bad)[0])
                    raise Violation("wrong-rotation", "%s by %r (%s map, %s): cell (%d, %d) is %r, expected %r (%d of %d wrong)" % (
                        msg, s, op["f"], op["form"], i, j, got[i, j].item(), e[i, j].item(), bad.sum(), bad.size))
            got = self.call(sim, op, lambda: fn(f, s), desc, judge)
            sim.log(desc[:40], float(np.nansum(np.where(known[:, None] & used, got, 0.))))
            if not full:
                return
            f = got

    def angles(self, sim, op, coords):
        g = np.random.Generator(np.random.PCG64(op["s"]))
        k = op["form"]
        n = g.integers(0, 6)
        phi = g.choice([0., np.pi, np.nextafter(TURN, 0.), g.uniform(0, TURN)], n) if op["f"] == "index" else g.uniform(0, TURN, n)
        if k == "fortran":
            phi = g.uniform(0, TURN, (3, 2))
        elif k == "strided":
            phi = np.repeat(phi, 2)[::2]
        elif k == "ro":
            phi.setflags(write=False)
        before = phi.copy()
        s = shift_of(op, TURN / 8)
        desc = "rotate_polar(%s, %r)" % (phi.tolist(), s)

        def judge(got, msg):
            if not isinstance(got, np.ndarray) or got.shape != phi.shape:
                raise Violation("malformed", "%s gives %r" % (msg, got))
            must(np.array_equal(phi, before), "map-changed", "%s changed the angles it was given" % msg)
            must(bool((got >= 0.).all() and (got < TURN).all()), "wrong-angle", "%s gives %r" % (msg, got))
            d = got - phi - s
            d -= TURN * np.round(d / TURN)
            must(bool((np.abs(d) < 1e-12).all()), "wrong-angle", "%s gives %r" % (msg, got))
        self.call(sim, op, lambda: coords.rotate_polar(phi, s), desc, judge)


def simsame(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)


WORLD = World()
