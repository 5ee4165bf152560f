"""C16: a perspective view is the projection of its most recent setup and inverts itself, through every history."""
import numpy as np

from .. import hist, prog, runner
from ..hist import must
from ..kernel import Violation

TWOPI = 2 * np.pi


def frame(cam, pt):
    """rows: forward, sideways, up"""
    d = np.asarray(pt, float) - np.asarray(cam, float)
    r = np.sqrt((d ** 2).sum())
    h = np.hypot(d[0], d[1])
    e1 = d / r
    ph = np.arctan2(d[1], d[0]) if h > 0 else 0.
    e2 = np.array([-np.sin(ph), np.cos(ph), 0.])
    return np.array([e1, e2, np.cross(e1, e2)])


def project(view, P):
    """(bx, by, dist, forward component)"""
    v = frame(view["camera"], view["point"]) @ (P - np.asarray(view["camera"], float)[:, None])
    a = view.get("spin", 0.)
    c, s = np.cos(a), np.sin(a)
    y, z = c * v[1] - s * v[2], s * v[1] + c * v[2]
    d = view["display"]
    with np.errstate(all="ignore"):
        return y * d / v[0], z * d / v[0], np.sqrt((v ** 2).sum(0)), v[0]


class World:
    prop = "C16"
    runs = {"quick": 4500, "thorough": 90000}
    cap = {"quick": 80, "thorough": 800}
    rule = "a run is non-trivial when a view was judged after a re-setup, a reset, another view's calls or an interrupted call"
    measure = "distinct (preceding operation, camera and target class, spin class, question) situations plus distinct fault sites"
    real = ["magpie.densegrid.PointOfView", "magpie.coords", "numpy"]
    stub = ["uninitialised memory (simulated contents)", "interrupts", "failed allocations"]
    assumptions = ["points at least about 6 degrees in front of the plane through the camera", "agreement to 1e-6",
                   "the caller does not modify the camera list between setups", "spin in [0, 2 pi)"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)

    def view(self, rng, old):
        k = rng.weighted([("random", 6), ("axis", 2), ("level", 1), ("ulp", 1), ("far", 1), ("part", 3 if old else 0)])
        scale = rng.choice([1., 1., 100., .01])
        cam = [rng.uniform(-2, 2) * scale for _ in range(3)]
        pt = [rng.uniform(-2, 2) * scale for _ in range(3)]
        if rng.chance(.2):
            cam = [0., 0., 0.]
        if k == "axis":
            i = rng.int(0, 2)
            pt = list(cam)
            pt[i] = cam[i] + rng.choice([-1, 1]) * rng.choice([1., 2., rng.uniform(.1, 3)]) * scale
        elif k == "ulp":                    # a rounding error away from an axis
            i = rng.int(0, 2)
            for j in range(3):
                if j != i:
                    pt[j] = cam[j] + rng.choice([0., -1., 1., -3.]) * np.spacing(cam[j])
        elif k == "level":
            pt[2] = cam[2]
        elif k == "far":
            pt = [p * 1e4 for p in pt]
        d = {"camera": cam, "point": pt, "display": rng.choice([1., rng.uniform(.1, 5), 10.]),
             "as": rng.choice(["list", "tuple", "array"])}
        if rng.chance(.6):
            d["spin"] = rng.choice([0., rng.uniform(0, 6.28), np.pi, np.pi / 2, 1e-9, 1e-17, 6.283])
        if k == "part":
            n = rng.choice(["camera", "point", "display", "spin"])
            e = dict(old)
            if n in d:
                e[n] = d[n]
            else:
                e.pop(n, None)
            if np.abs(np.subtract(e["camera"], e["point"])).max() > 1e-6:
                d = e
            if rng.chance(.5):
                r = self.related(rng, old)
                if np.abs(np.subtract(r["camera"], r["point"])).max() > 1e-6:
                    d = r
        d.pop("refill", None)
        if d["as"] != "tuple" and rng.chance(.15):
            d["refill"] = True
        return d

    def related(self, rng, old):
        """a view that shares some derived quantity with the last one"""
        e = dict(old)
        c, p = np.array(old["camera"]), np.array(old["point"])
        d = p - c
        k = rng.choice(["turn", "turn back", "distance", "opposite", "raise", "shift", "swap", "pair", "mirror"])
        a = rng.choice([rng.uniform(.1, 6.1), np.pi, np.pi / 2])
        if k in ("turn", "turn back"):      # same height and distance
            R = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1.]])
            if k == "turn":
                p = c + R @ d
            else:
                c = p - R @ d
        elif k == "distance":
            p = c + d * rng.choice([.5, 2., rng.uniform(.1, 9)])
        elif k == "opposite":
            p = c - d
        elif k == "raise":                  # same azimuth
            p = p + np.array([0, 0, rng.uniform(-2, 2) * (np.abs(d).max() or 1)])
        elif k == "shift":
            s = np.array([rng.uniform(-2, 2) for _ in range(3)]) * np.abs(d).max()
            c, p = c + s, p + s
        elif k == "swap":
            c, p = p, c
        elif k == "mirror":
            i = rng.int(0, 2)
            p = c + d * np.where(np.arange(3) == i, -1, 1)
        e["camera"], e["point"] = c.tolist(), p.tolist()
        if k == "pair" or rng.chance(.2):
            e["display"] = rng.uniform(.1, 5)
        if k == "pair" or rng.chance(.2):
            e["spin"] = rng.uniform(0, 6.28)
        return e

    def plan(self, rng, tier, index):
        n = rng.weighted([(1, 6), (2, 4)])
        old = [None] * n
        ops = []

        def setup(o):
            v = old[o] = self.view(rng, old[o])
            op = {"t": "setup", "o": o, "v": v}
            if rng.chance(.25):
                op["fault"] = hist.gen_fault(rng)
                op["again"] = rng.chance(.5)
            ops.append(op)
        for o in range(n):
            setup(o)
        for _ in range(rng.int(3, 12)):
            o = rng.int(0, n - 1)
            t = rng.weighted([("transform", 5), ("reverse", 4), ("setup", 4), ("clean", .7), ("bad", 1)])
            if t == "setup":
                setup(o)
            elif t == "clean":
                ops.append({"t": "clean", "o": o})
                setup(o)
            elif t == "bad":
                ops.append({"t": "bad", "o": o, "which": rng.choice(["camera", "point", "both"]), "v": self.view(rng, None)})
            if t in ("transform", "reverse") or rng.chance(.6):
                ops.append(self.use(rng, o, t if t in ("transform", "reverse") else rng.choice(["transform", "reverse"])))
        return {"env": hist.gen_env(rng), "n": n, "ops": ops}

    def use(self, rng, o, t):
        op = {"t": t, "o": o, "s": rng.seed(), "n": rng.weighted([(rng.int(1, 6), 5), (rng.int(6, 40), 1), (rng.int(41, 300), .4)]),
              "wide": rng.choice([.05, .5, 1., 5.]), "target": rng.chance(.6), "ro": rng.chance(.3),
              "lay": rng.weighted([("plain", 6), ("strided", 1), ("flipped", 1), ("columns", 2)])}
        if rng.chance(.25):
            op["fault"] = hist.gen_fault(rng)
        return op

    def apply(self, real, v):
        form = {"list": list, "tuple": tuple, "array": np.array}[v["as"]]
        kw = {"spin": v["spin"]} if "spin" in v else {}

        def fn():
            a = (form(v["camera"]), form(v["point"]), v["display"])
            try:
                return real.setup(*a, **kw)
            finally:
                if v.get("refill"):         # the caller moves its own points on
                    for x in a[:2]:
                        for i in range(len(x)):
                            x[i] = .5 * x[i] + 1.7
        return fn

    def execute(self, plan, sim):
        real = [prog.new_pov() for _ in range(plan["n"])]
        view = [None] * plan["n"]
        last = ["start"] * plan["n"]
        for step, op in enumerate(plan["ops"]):
            o, t = op["o"], op["t"]
            if t == "setup":
                fn = self.apply(real[o], op["v"])
                done = False
                if op.get("fault"):
                    r, p, f = sim.faulty(fn, op["fault"])
                    op["fault"] = f
                    done = r.ok
                    if not r.ok and not op["again"] and view[o] is not None:
                        last[o] = "interrupted setup"       # the earlier view is still the most recent one
                        continue
                if not done:
                    r = sim.call(fn)
                    must(r.ok, "setup-fails", "step %d: setup(%s): %s" % (step, op["v"], r.describe()))
                last = [x if i == o or x == "start" else "other" for i, x in enumerate(last)]
                last[o] = "setup" if view[o] is None and last[o] == "start" else "re-setup"
                view[o] = op["v"]
            elif t == "bad":
                v = op["v"]
                c = {"camera": v["camera"], "point": v["point"]}
                if op["which"] in ("camera", "both"):
                    c["camera"] = None
                if op["which"] in ("point", "both"):
                    c["point"] = ["a", None, 1.]
                r = sim.call(lambda: real[o].setup(c["camera"], c["point"], v["display"]))
                if r.ok:
                    return
                last[o] = "refused setup"
            elif t == "clean":
                must(sim.call(real[o].clean).ok, "clean-fails", "PointOfView.clean")
                view[o] = None
                last[o] = "reset"
                for q in ("transform", "reverse"):
                    r = sim.call(lambda: getattr(real[o], q)(*(np.ones(2),) * 3))
                    must(not r.ok, "answers-after-clean", "step %d: %s of a view that was reset %s" % (step, q, r.describe()))
            elif view[o] is not None:
                self.use_view(sim, real[o], view[o], op, step, last, o)

    def points(self, v, op):
        """points in front of the camera; the first may be the target"""
        g = np.random.Generator(np.random.PCG64(op["s"]))
        n = op["n"]
        F = frame(v["camera"], v["point"])
        D = np.sqrt((np.subtract(v["point"], v["camera"]) ** 2).sum())
        f = D * g.uniform(.2, 3, n)
        q = F.T @ np.array([f, f * op["wide"] * g.uniform(-1, 1, n), f * op["wide"] * g.uniform(-1, 1, n)])
        P = np.asarray(v["camera"], float)[:, None] + q
        if op["target"]:
            P[:, 0] = v["point"]
        return P

    def use_view(self, sim, real, v, op, step, last, o):
        P = self.points(v, op)
        bx, by, dist, fwd = project(v, P)
        tr = op["t"] == "transform"
        args = [np.ascontiguousarray(a) for a in (P if tr else (bx, by, dist))]
        if op.get("lay") == "strided":
            args = [np.repeat(a, 2)[::2] for a in args]
        elif op.get("lay") == "flipped":
            args = [np.ascontiguousarray(a[::-1])[::-1] for a in args]
        elif op.get("lay") == "columns":
            args = list(np.array(args).T.copy().T)
        if op["ro"]:
            for a in args:
                a.setflags(write=False)
        fn = lambda: getattr(real, op["t"])(*args)
        desc = "step %d: %s of a view %s after %s" % (step, op["t"], v, last[o])
        if op.get("fault"):
            r, p, f = sim.faulty(fn, op["fault"])
            op["fault"] = f
            if r.ok:
                self.judge(v, P, r.value, tr, desc + " (hit by a fault)")
            else:
                last[o] = "interrupted " + op["t"]
        r = sim.call(fn)
        must(r.ok, op["t"] + "-fails", "%s: %s" % (desc, r.describe()))
        self.judge(v, P, r.value, tr, desc)
        # and back
        back = [np.array(a) for a in r.value]
        r2 = sim.call(lambda: getattr(real, "reverse" if tr else "transform")(*back))
        must(r2.ok, "inverse-fails", "%s: %s" % (desc, r2.describe()))
        self.judge(v, P, r2.value, not tr, desc + ", and back")
        if last[o] not in ("start", "setup"):
            sim.nontrivial = True
        sim.note(last[o], op["t"], bool(v.get("spin")), "spin" in v, [a == b for a, b in zip(v["camera"], v["point"])], op["wide"],
                 bool(op.get("fault")))
        sim.log(step, op["t"], last[o], float(np.sum(r.value[0])))
        sim.stats["points judged"] += 2 * P.shape[1]
        last[o] = op["t"]

    def judge(self, v, P, got, tr, desc):
        if not isinstance(got, tuple) or len(got) != 3:
            raise Violation("malformed", "%s gives %r" % (desc, got))
        got = [np.asarray(a, float) for a in got]
        n = P.shape[1]
        if any(a.shape != (n,) for a in got):
            raise Violation("malformed", "%s gives shapes %s for %d points" % (desc, [a.shape for a in got], n))
        bx, by, dist, fwd = project(v, P)
        scale = np.abs(np.asarray(v["camera"])).max() + dist.max()
        if tr:
            w = (dist / fwd) ** 2
            exp = [("view x", got[0], bx, 1e-6 * v["display"] * w), ("view y", got[1], by, 1e-6 * v["display"] * w),
                   ("distance", got[2], dist, 1e-9 * scale)]
        else:
            exp = [(q, a, b, 1e-6 * scale) for q, a, b in zip(("x", "y", "z"), got, P)]
        for name, a, b, tol in exp:
            bad = ~(np.abs(a - b) <= tol)
            if bad.any():
                i = int(np.argmax(bad))
                raise Violation("wrong-view" if tr else "wrong-inverse", "%s: %s of point %s is %r, expected %r" % (
                    desc, name, P[:, i].tolist(), a[i].item(), b[i].item()))


WORLD = World()
