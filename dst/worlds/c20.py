"""C20: positions on the orthographic projection are those of the grid currently set up, through every history."""
import numpy as np

from .. import geom, hist, runner
from ..hist import must
from ..kernel import Violation
from . import c17

PI = np.pi


def directions(op, centre):
    """unit vectors (3, n) and their longitudes and colatitudes"""
    g = np.random.Generator(np.random.PCG64(op["s"]))
    n = op["n"]
    phi, theta = g.uniform(0, 2 * PI, n), np.arccos(g.uniform(-1, 1, n))
    k = op["near"]
    M = geom.ortho_matrix(centre)
    if k == "limb":             # just inside and outside of the visible half
        a, h = g.uniform(0, 2 * PI, n), g.choice([-1., 1.], n) * 10. ** g.uniform(-6, -1, n)
        v = M @ np.array([np.cos(a) * np.cos(h), np.sin(a) * np.cos(h), np.sin(h)])
    elif k == "centre":
        a, h = g.uniform(0, 2 * PI, n), 10. ** g.uniform(-9, -1, n)
        v = M @ np.array([np.cos(a) * np.sin(h), np.sin(a) * np.sin(h), g.choice([-1., 1.], n) * np.cos(h)])
    else:
        v = None
    if v is not None:
        phi, theta = np.arctan2(v[1], v[0]) % (2 * PI), np.arctan2(np.hypot(v[0], v[1]), v[2])
    elif k == "special":
        phi = g.choice([0., PI / 2, PI, 1.5 * PI, centre[0]], n)
        theta = g.choice([0., PI / 2, PI, PI / 4, centre[1]], n)
    return phi, theta


class World(c17.World):
    prop = "C20"
    runs = {"quick": 5000, "thorough": 150000}
    cap = {"quick": 75, "thorough": 800}
    rule = ("a run is non-trivial when positions were judged after a re-setup, a refused, failed or interrupted call, a clean, "
            "or another object's setup")
    measure = "distinct (operation before, fault kind, kind of directions, form of arguments, radius given) tuples plus distinct fault sites"
    real = ["magpie.densegrid.Heal2Ortho", "magpie.coords", "magpie.utils", "numpy", "healpy"]
    assumptions = ["agreement to 1e-6 of the radius; directions within 1e-7 of the limb are not judged",
                   "the caller does not change the sequence it passed as center while the grid is in use"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        from .c01 import valid
        n = rng.weighted([(1, 6), (2, 3), (3, 1)])
        kind = "dg.Heal2Ortho"
        st = [{"src": None, "tgt": None} for _ in range(n)]
        ops = []

        def setup(o, role):
            s = st[o]
            g = geom.gen_source(rng, kind, 4, True) if role == "src" else geom.gen_target(rng, kind, s["src"], 5, True)
            if s[role] is not None and rng.chance(.5):
                kw = dict(s[role]["kw"])
                for k in rng.sample(sorted(set(g["kw"]) | set(kw)), rng.int(1, 2)):
                    if k in g["kw"]:
                        kw[k] = g["kw"][k]
                    else:
                        kw.pop(k)
                if valid(kind, g["m"], kw):
                    g = {"m": g["m"], "kw": kw}
            op = dict(g, role=role, o=o, t="setup")
            if rng.chance(.3):
                op["fault"] = hist.gen_fault(rng, c17.KINDS)
                op["drop"] = rng.chance(.5)
            if not (op.get("drop") and s[role] is not None):
                s[role] = op
            ops.append(op)

        def ask(o):
            ops.append({"t": "ask", "o": o, "s": rng.seed(), "n": rng.weighted([(rng.int(1, 6), 8), (rng.int(7, 60), 1), (rng.int(61, 300), .5)]), "ro": rng.chance(.3),
                        "near": rng.weighted([("any", 5), ("limb", 2), ("centre", 2), ("special", 2)]),
                        "form": rng.weighted([("array", 5), ("float", 2), ("np", 1), ("strided", 1), ("int", .5)]),
                        "fault": hist.gen_fault(rng, c17.KINDS) if rng.chance(.25) else None})
        for o in range(n):
            setup(o, "src")
            setup(o, "tgt")
        for _ in range(rng.int(2, 9)):
            o = rng.int(0, n - 1)
            t = rng.weighted([("tgt", 4), ("src", 2), ("use", 2), ("bad", 1.5), ("clean", 1), ("ask", 4), ("unset", .4)])
            if t in ("src", "tgt"):
                setup(o, t)
            elif t == "bad":
                ops.append(dict(hist.rejected(rng, st[o]["tgt"] if rng.chance(.7) else st[o]["src"]), o=o, t="bad"))
            elif t == "use":
                ops.append({"o": o, "t": "use", "what": "remap", "s": rng.seed(),
                            "fault": hist.gen_fault(rng, c17.KINDS) if rng.chance(.3) else None})
            elif t == "clean":
                ops.append({"o": o, "t": "clean"})
                ask(o)
                setup(o, "src")
                if rng.chance(.3):
                    ask(o)
                setup(o, "tgt")
            ask(rng.int(0, n - 1))
        return {"env": hist.gen_env(rng), "n": n, "ops": ops}

    def execute(self, plan, sim):
        obs = [hist.Obj("dg.Heal2Ortho") for _ in range(plan["n"])]
        last = ["start"] * plan["n"]
        for step, op in enumerate(plan["ops"]):
            o, t = op["o"], op["t"]
            if o >= len(obs):
                continue
            ob = obs[o]
            if t == "ask":
                self.ask(sim, ob, op, step, last[o])
                continue
            if t == "setup" and not ob.possible(op) or t in ("bad", "use") and not ob.ready:
                continue
            fn = ob.real.clean if t == "clean" else self.use(ob, op) if t == "use" else lambda: geom.apply(ob.real, op)
            if op.get("fault"):
                r, p, g = sim.faulty(fn, op["fault"])
                op["fault"] = g
                if not r.ok:
                    last[o] = "interrupted " + t
                    if t == "use" or op.get("drop") and (ob.src if op["role"] == "src" else ob.tgt) is not None:
                        continue
                    r = sim.call(fn)
            else:
                r = sim.call(fn)
            last = ["other" if i != o and x != "start" else x for i, x in enumerate(last)]
            last[o] = t if t != "setup" else "re-setup" if ob.ready else "setup"
            if t == "setup":
                must(r.ok, "setup-fails", "%s(%s) fails: %s" % (op["m"], op["kw"], r.describe()))
                ob.set(op)
            elif t == "clean":
                must(r.ok, "clean-fails", r.describe())
                ob.unset()
            elif t == "bad" and r.ok:
                return

    def ask(self, sim, ob, op, step, last):
        ready = ob.tgt is not None
        kw = ob.tgt["kw"] if ready else {}
        centre = geom.center_of(kw, 2) if ready else [1., 1.]
        r = float(kw.get("radius", 1.))
        phi, theta = directions(op, centre)
        form = op["form"]
        if form == "int":
            phi, theta = np.floor(phi).astype(int), np.floor(theta).astype(int)
        if form in ("float", "np"):
            phi, theta = phi[:1], theta[:1]
            a = (float(phi[0]), float(theta[0])) if form == "float" else (phi[0], theta[0])
        elif form == "strided":
            a = tuple(np.repeat(x, 2)[::2] for x in (phi, theta))
        else:
            a = (phi.copy(), theta.copy())
        if op["ro"] and form not in ("float", "np"):
            for x in a:
                x.setflags(write=False)
        fn = lambda: ob.real.transform(*a)
        desc = "step %d: transform after %s, grid %s" % (step, last, kw)
        if op.get("fault") and ready:
            q, p, f = sim.faulty(fn, op["fault"])
            op["fault"] = f
            if q.ok:
                self.judge(phi, theta, centre, r, q.value, desc, form)
        q = sim.call(fn)
        sim.note(last, (op.get("fault") or {}).get("kind"), op["near"], form, "radius" in kw)
        if not ready:
            must(not q.ok, "answers-without-grid", "%s: gives %s although no grid is set up" % (desc, q.describe()))
            return
        must(q.ok, "transform-fails", "%s: transform(%s, %s): %s" % (desc, phi.tolist(), theta.tolist(), q.describe()))
        self.judge(phi, theta, centre, r, q.value, desc, form)
        if last not in ("start", "setup"):
            sim.nontrivial = True
        sim.stats["positions judged"] += len(phi)
        sim.log(step, last, form, [float(np.nansum(x)) for x in q.value])

    def judge(self, phi, theta, centre, r, got, desc, form):
        if not isinstance(got, tuple) or len(got) != 2:
            raise Violation("malformed", "%s gives %r" % (desc, got))
        x, y = (np.asarray(v, float) for v in got)
        want = () if form in ("float", "np") else (len(phi),)
        if x.shape != want or y.shape != want:
            raise Violation("malformed", "%s gives shapes %s and %s for %d directions" % (desc, x.shape, y.shape, len(phi)))
        x, y = np.atleast_1d(x), np.atleast_1d(y)
        v = np.array([np.cos(phi) * np.sin(theta), np.sin(phi) * np.sin(theta), np.cos(theta)])
        u = geom.ortho_matrix(centre).T @ v
        for i in range(len(phi)):
            if abs(u[2, i]) < 1e-7:
                continue
            where = "%s: direction (%r, %r)" % (desc, phi[i].item(), theta[i].item())
            if u[2, i] < 0:
                must(np.isnan(x[i]) and np.isnan(y[i]), "behind-visible", "%s lies behind but is put at (%r, %r)" % (
                    where, x[i].item(), y[i].item()))
            else:
                d = max(abs(x[i] - r * u[0, i]), abs(y[i] - r * u[1, i]))
                must(d <= 1e-6 * r, "wrong-position", "%s is put at (%r, %r), expected (%r, %r)" % (
                    where, x[i].item(), y[i].item(), (r * u[0, i]).item(), (r * u[1, i]).item()))


WORLD = World()
