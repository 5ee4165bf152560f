"""C12: exact cartesian remapping is the overlap mean, whatever memory contains and whatever came before."""
import numpy as np

from .. import boot, geom, hist, runner, sim as simmod
from ..kernel import Violation

KINDS = (("alloc", 5), ("interrupt", 3), ("memory", 2))


def gen_axis(rng, nmax):
    """(input origin, size, cells, output origin, size, cells)"""
    o = rng.choice([0., 0., rng.uniform(-3, 3), float(rng.int(-3, 3)), rng.uniform(-300, 300)])
    n = rng.int(1, nmax)
    b = rng.choice([1., float(rng.int(1, 6)), rng.uniform(.05, 6)])
    d = b / n
    m = rng.int(1, nmax)
    k = rng.weighted([("same", 2), ("inside", 2), ("across", 3), ("cover", 2), ("disjoint", 1), ("touch", 1), ("aligned", 3),
                      ("far", .3), ("fine", 1)])
    if k == "same":
        o2, b2 = o, b
    elif k == "inside":
        o2 = o + b * rng.uniform(0, .5)
        b2 = (o + b - o2) * rng.uniform(.1, 1)
    elif k == "across":
        o2 = o + b * rng.uniform(-1, 1)
        b2 = b * rng.uniform(.2, 2)
    elif k == "cover":
        o2 = o - b * rng.uniform(0, 1)
        b2 = b * rng.uniform(2, 3)
    elif k == "disjoint":
        b2 = b * rng.uniform(.2, 2)
        o2 = o + rng.choice([b * rng.uniform(1.01, 3), -b2 - b * rng.uniform(.01, 2)])
    elif k == "touch":
        b2 = b
        o2 = o + rng.choice([b, -b])
    elif k == "aligned":
        o2 = o + d * rng.int(-3, n + 1)
        b2 = d * rng.int(1, 2 * n + 2)
        m = rng.choice([m, max(1, round(b2 / d))])
    elif k == "fine":       # output cells much smaller than input cells
        o2 = o + b * rng.uniform(-.1, .8)
        b2 = d * rng.uniform(.01, .9)
    else:
        o2 = o + rng.choice([-1, 1]) * rng.uniform(100, 1e6)
        b2 = b
    return [o, b, n, o2, b2, m]


def overlap(ax):
    o, b, n, o2, b2, m = ax
    e1 = o + b * np.arange(n + 1) / n
    e2 = o2 + b2 * np.arange(m + 1) / m
    w = np.minimum(e1[None, 1:], e2[1:, None]) - np.maximum(e1[None, :-1], e2[:-1, None])
    return np.maximum(w, 0) / (b2 / m)


def model(axes, f):
    """(expected, absolute tolerance)"""
    r = np.asarray(f, float)
    for k, ax in enumerate(axes):
        r = np.moveaxis(np.tensordot(overlap(ax), r, axes=(1, k)), 0, k)
    tol = 0.
    for o, b, n, o2, b2, m in axes:
        tol += 3e-15 * (max(abs(o), abs(o + b)) + max(abs(o2), abs(o2 + b2)) + b) / (b2 / m) * 4
    return r, (tol + 1e-13 * max(a[2] for a in axes)) * max(1e-300, np.abs(f).max()) if np.size(f) else 0.


class World:
    prop = "C12"
    runs = {"quick": 12000, "thorough": 200000}
    cap = {"quick": 80, "thorough": 800}
    rule = "a run is non-trivial when at least two remaps of different shapes were judged and memory was poisoned or a fault fired"
    measure = "distinct (dimension, overlap class, shape, memory pattern) situations plus distinct fault sites"
    real = ["magpie.remap", "magpie.src (compiled Fortran routines)", "numpy"]
    stub = ["uninitialised memory (simulated contents)", "failed allocations", "interrupts"]
    assumptions = ["agreement to rounding: a few units in the last place of the coordinates relative to the output cell"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        ops = []
        for _ in range(rng.int(3, 9)):
            ops.append(self.gen(rng, tier))
            if rng.chance(.15):
                ops.append(dict(ops[rng.int(0, len(ops) - 1)], fault=None))
        return {"env": hist.gen_env(rng), "ops": ops}

    def gen(self, rng, tier):
        while True:
            d = rng.weighted([(1, 3), (2, 4), (3, 3)])
            nmax = rng.choice({1: [4, 4, 12, 12, 60, 60, 200, 1500], 2: [3, 3, 8, 8, 16, 16, 40],
                              3: [2, 2, 4, 4, 6, 6, 12]}[d])
            ax = [gen_axis(rng, nmax) for _ in range(d)]
            if d > 1 and rng.chance(.15):       # scalar arguments
                a = ax[0]
                ax = [list(a) for _ in range(d)]
            cells = 1.
            for a in ax:
                cells *= (a[4] / a[5] / (a[1] / a[2]) + 2) * a[5]
            if cells < 2e5:
                break
        f = hist.mapless(rng)
        op = {"axes": ax, "f": f, "flav": rng.choice(["list", "tuple", "arr"]), "scalars": rng.chance(.7),
              "short": rng.chance(.7), "npscalar": rng.chance(.1)}
        if rng.chance(.15):
            op["fault"] = hist.gen_fault(rng, KINDS)
        return op

    def fn(self, op):
        """the call, choosing among its equivalent forms"""
        ax = op["axes"]
        d = len(ax)
        f = hist.shaped(op["f"], [a[2] for a in ax])

        def form(k):
            v = [a[k] for a in ax]
            if d == 1 or op["scalars"] and all(x == v[0] for x in v):
                if op["npscalar"]:
                    return np.float64(v[0]) if k not in (2, 5) else np.int64(v[0])
                return v[0]
            if op["flav"] == "arr":
                return np.array(v)
            return tuple(v) if op["flav"] == "tuple" else v
        kw = {}
        if not op["short"] or any(a[0] for a in ax):
            kw["origin"] = form(0)
        if not op["short"] or any(a[3] for a in ax):
            kw["originout"] = form(3)
        if not op["short"] or any(a[4] != a[1] for a in ax):
            kw["boxsizeout"] = form(4)
        g = getattr(boot.magpie.remap, "grid2grid%dD" % d)
        a = (f, form(1), form(5))
        return (lambda: g(*a, **kw)), f, "grid2grid%dD(f%s, %s, %s, %s)" % (d, f.shape, a[1], a[2], kw)

    def execute(self, plan, sim):
        seen, shapes, faulted = [], set(), 0
        for step, op in enumerate(plan["ops"]):
            fn, f, label = self.fn(op)
            if op.get("fault"):
                o, p, g = sim.faulty(fn, op["fault"])
                op["fault"] = g
                faulted += bool(o.fired)
                if not o.ok:
                    if not o.fired:
                        raise Violation("call-fails", "step %d: %s: %s" % (step, label, o.describe()))
                    o = sim.call(fn)
            else:
                o = sim.call(fn)
            label = "step %d: %s" % (step, label)
            if not o.ok:
                raise Violation("call-fails", "%s: %s" % (label, o.describe()))
            r, tol = model(op["axes"], f)
            v = o.value
            if not isinstance(v, np.ndarray) or v.shape != r.shape:
                raise Violation("malformed", "%s gives %s, expected shape %s" % (label, o.describe(), r.shape))
            with np.errstate(all="ignore"):
                bad = ~(np.abs(v - r) <= tol)
            if bad.any():
                i = tuple(int(x) for x in np.argwhere(bad)[0])
                raise Violation("not-overlap-mean", "%s: %d of %d cells differ from the overlap mean, first %s: %r, expected %r "
                                "(tolerance %.2g)" % (label, bad.sum(), bad.size, i, v[i].item(), r[i].item(), tol))
            for op2, v2, s2 in seen:
                if op2 == {k: x for k, x in op.items() if k != "fault"} and not simmod.same(v, v2):
                    raise Violation("not-repeated", "%s: the same call gave another result at step %d: %s" % (
                        label, s2, simmod.first_difference(v, v2)))
            seen.append(({k: x for k, x in op.items() if k != "fault"}, v.copy(), step))
            shapes.add((f.shape, v.shape))
            # results already handed out stay as they are
            sim.note(len(op["axes"]), [[int(np.floor((a[3] - a[0]) / a[1])), int(np.floor(a[4] / a[1]))] for a in op["axes"]],
                     plan["env"].get("poison"), plan["env"].get("perturb"))
            sim.stats["cells judged"] += v.size
            sim.log(step, f.shape, v.shape, simmod.digest(v))
        sim.nontrivial = len(shapes) > 1 and bool(faulted or plan["env"].get("poison") or plan["env"].get("perturb"))


WORLD = World()
