"""C15: radial profiles use the current grids and only in-bounds cells."""
import copy

import numpy as np

from .. import geom, hist, overlap, runner
from ..hist import must
from ..kernel import Violation
from . import c01

KINDS = [("dg.Box2Ring", 4), ("mc.Box2Ring", 4), ("dg.Heal2Ring", 2), ("mc.Heal2Ring", 2)]


class World:
    prop = "C15"
    runs = {"quick": 4500, "thorough": 80000}
    cap = {"quick": 80, "thorough": 800}
    rule = ("a run is non-trivial when a profile was judged after the grids had changed, after a clean, after another object's "
            "calls or after a call cut short by a fault")
    measure = "distinct (remapper, preceding operation, arguments, in-bounds class) situations plus distinct fault sites"
    real = ["magpie.densegrid and magpie.montecarlo ring remappers", "magpie.polar", "magpie.coords", "numpy", "healpy"]
    stub = ["uninitialised memory (simulated contents)", "standard output", "clock", "interrupts", "failed allocations"]
    assumptions = ["agreement to 1e-10 relative", "which cells are in bounds is read off the mask the object reports, and that "
                   "mask is itself compared with the geometric model (dense) or with the remap of ones (Monte Carlo)",
                   "weights are finite and not negative"]
    refs = {}
    unweighted = False
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        size = 6 if tier == "quick" or rng.chance(.8) else 12
        kinds = [rng.weighted(KINDS)]
        if rng.chance(.4):
            kinds.append(kinds[0] if rng.chance(.6) else rng.weighted(KINDS))
        state = [{"src": None, "tgt": None, "old": []} for _ in kinds]
        ops = []

        def setup(o, role):
            st = state[o]
            k = kinds[o]
            prev = [p for p in st["old"] if p["role"] == role]
            if prev and rng.chance(.2):
                g = copy.deepcopy(rng.choice(prev))
                g.pop("fault", None)
            else:
                g = geom.gen_source(rng, k, size, True) if role == "src" else geom.gen_target(rng, k, st["src"], size, True)
                if st[role] is not None and st[role]["m"] == g["m"] and rng.chance(.6):     # change part of the grid
                    kw = dict(st[role]["kw"])
                    names = sorted(set(g["kw"]) | set(kw))
                    for n in rng.sample(names, rng.int(1, 2)):
                        if n in g["kw"]:
                            kw[n] = g["kw"][n]
                        else:
                            kw.pop(n)
                    if c01.valid(k, g["m"], kw):
                        g = {"m": g["m"], "kw": kw}
            op = dict(g, role=role, o=o, t="setup")
            st[role] = op
            st["old"].append(copy.deepcopy(op))
            if rng.chance(.2):
                op["fault"] = hist.gen_fault(rng)
                op["drop"] = rng.chance(.4)
            ops.append(op)

        def weights(o):
            if kinds[o].startswith("mc."):
                q = {"t": "weights", "o": o, "mc": rng.choice([2, 3, 8, 30])}
                if rng.chance(.2):
                    q["fault"] = hist.gen_fault(rng)
                ops.append(q)
        for o in range(len(kinds)):
            for r in (["src", "tgt"] if "Heal" in kinds[o] or rng.chance(.5) else ["tgt", "src"]):
                if r == "tgt" and state[o]["src"] is None:
                    state[o]["src"] = geom.gen_source(rng, kinds[o], size, True)
                setup(o, r)
            weights(o)
        for _ in range(rng.int(3, 10)):
            o = rng.int(0, len(kinds) - 1)
            t = rng.weighted([("profile", 8), ("mask", 2), ("src", 2.5), ("tgt", 2.5), ("both", .8), ("weights", 1), ("bad", .8),
                              ("clean", .5), ("remap", 1), ("new", .4)])
            if t == "new":
                ops.append({"t": "new", "o": o})
                setup(o, "src")
                setup(o, "tgt")
                weights(o)
            elif t in ("src", "tgt"):
                setup(o, t)
                if rng.chance(.85):
                    weights(o)
            elif t == "both":
                for r in rng.shuffle(["src", "tgt"]):
                    setup(o, r)
                weights(o)
            elif t == "weights":
                weights(o)
            elif t == "clean":
                ops.append({"t": "clean", "o": o})
                setup(o, "src")
                setup(o, "tgt")
                weights(o)
            elif t == "bad":
                base = state[o]["tgt"] if rng.chance(.6) else state[o]["src"]
                ops.append(dict(hist.rejected(rng, base), o=o, t="bad", keep=rng.chance(.6)))
            elif t in ("mask", "remap"):
                ops.append({"t": t, "o": o, "s": rng.seed(), "fault": hist.gen_fault(rng) if rng.chance(.25) else None})
            if t == "profile" or rng.chance(.6):
                ops.append(self.profile(rng, o))
        for o in range(len(kinds)):
            ops.append(self.profile(rng, o))
        return {"env": hist.gen_env(rng), "kinds": kinds, "ops": ops}

    def profile(self, rng, o):
        op = {"t": "profile", "o": o, "f": rng.choice(["rand", "rand", "const", "remap", "index"]), "s": rng.seed(),
              "sigma": rng.chance(.5), "w": rng.choice([None, None, "pos", "zeros", "binary", "const"]),
              "dirt": rng.choice([None, None, "nan", "huge", "inf"]), "mask": rng.chance(.3)}
        if rng.chance(.25):
            op["fault"] = hist.gen_fault(rng, hist.FAULT_KINDS + (("stdout", 1),))
        if rng.chance(.3):
            op["verbose"] = rng.chance(.5)
        return op

    def execute(self, plan, sim):
        obs = [hist.Obj(k) for k in plan["kinds"]]
        for ob in obs:
            ob.weights = False
        last = ["start"] * len(obs)
        for step, op in enumerate(plan["ops"]):
            o = op["o"]
            if o >= len(obs):
                continue
            if op["t"] == "new":            # the object is dropped and another one takes its name
                k, ob = obs[o].kind, None
                obs[o] = None
                obs[o] = hist.Obj(k)
                obs[o].weights = False
                last[o] = "new"
                continue
            ob, t = obs[o], op["t"]
            mc = ob.kind.startswith("mc.")
            if t == "setup":
                if not ob.possible(op):
                    continue
                if not hist.do_setup(sim, ob, op):
                    last[o] = "failed setup"
                    continue
                ob.weights = False
                last = [x if i == o else "other" for i, x in enumerate(last)]
                last[o] = "setup " + op["role"] if last[o] == "start" else "re-setup " + op["role"]
            elif t == "bad":
                if ob.ready:
                    if not hist.do_rejected(sim, ob, op):
                        return
                    last[o] = "rejected"
                    if op.get("keep"):
                        continue
                    # an object a setup was refused for may want new grids and weights: C03 and C04
                    for g in (ob.src, ob.tgt):
                        hist.do_setup(sim, ob, hist.clean_op(g))
                    ob.weights = False
                    if mc:
                        must(sim.call(hist.weights_fn(ob, {"mc": 3, "verbose": False})).ok, "weights-fail", ob.kind)
                        ob.weights = True
                    last[o] = "rejected"
            elif t == "clean":
                must(sim.call(ob.real.clean).ok, "clean-fails", ob.kind)
                ob.unset()
                ob.weights = False
                last[o] = "clean"
            elif not ob.ready:
                continue
            elif t == "weights":
                fn = hist.weights_fn(ob, {"mc": op["mc"], "verbose": False})
                if op.get("fault"):
                    r, p, f = sim.faulty(fn, op["fault"])
                    op["fault"] = f
                    last[o] = "faulted weights"
                    if not r.ok and ob.weights and op["mc"] % 2 == 0:
                        continue        # keeps its earlier weights
                r = sim.call(fn)
                must(r.ok, "weights-fail", "%s source %s target %s: %s" % (ob.kind, ob.src["kw"], ob.tgt["kw"], r.describe()))
                ob.weights = True
                last[o] = "weights"
            elif mc and not ob.weights and t != "profile":
                continue
            elif t in ("mask", "remap"):
                if t == "mask" and "Box" not in ob.kind:
                    continue
                f = np.random.Generator(np.random.PCG64(op["s"])).uniform(-1, 1, ob.src_shape())
                fn = (lambda: ob.real.get_mask_in_bound(verbose=False)) if t == "mask" else (lambda: ob.real.remap(f, verbose=False))
                if op.get("fault"):
                    r, p, g = sim.faulty(fn, op["fault"])
                    op["fault"] = g
                    last[o] = "faulted " + t
                else:
                    r = sim.call(fn)
                    must(r.ok, t + "-fails", "%s: %s" % (ob.kind, r.describe()))
                    last[o] = t
                if r.ok and t == "mask":
                    self.mask(sim, ob, step)
            elif t == "profile":
                if mc and not ob.weights and "Box" in ob.kind and not self.unweighted:
                    continue
                self.check(sim, ob, op, step, last, o)

    def ones(self, sim, ob):
        r = sim.call(lambda: ob.real.remap(np.ones(ob.src_shape()), verbose=False))
        must(r.ok, "remap-fails", "%s: %s" % (ob.kind, r.describe()))
        return np.where(np.isfinite(r.value), r.value, 0.)

    def mask(self, sim, ob, step):
        """the mask the object reports, judged"""
        m = ob.real.mask_in_bound
        desc = "step %d: %s source %s target %s" % (step, ob.kind, ob.src["kw"], ob.tgt["kw"])
        must(isinstance(m, np.ndarray) and m.shape == ob.tgt_shape(), "wrong-mask", "%s: the mask is %r" % (desc, m))
        m = np.array(m, float)
        if ob.kind.startswith("dg."):
            bad = ob.sub().check(m, np.ones(ob.src_shape()), what="mask")
            must(not bad, "wrong-mask", "%s: %s" % (desc, bad))
            # cells surely inside count as inside
        e = self.ones(sim, ob)
        d = np.abs(m - e) > 1e-9
        if d.any():
            i = tuple(int(x) for x in np.argwhere(d)[0])
            raise Violation("wrong-mask", "%s: mask of cell %s is %r, the remap of ones gives %r (%d of %d differ)" % (
                desc, i, m[i], e[i], d.sum(), d.size))
        sim.stats["masks judged"] += 1
        return m

    def check(self, sim, ob, op, step, last, o):
        shape = ob.tgt_shape()
        g = np.random.Generator(np.random.PCG64(op["s"]))
        flat = "Box" in ob.kind
        inside = np.ones(shape, bool)
        if flat:        # known before the profile, from the remap of ones
            inside = self.ones(sim, ob) == 1.
        if op["f"] == "const":
            fp = np.full(shape, g.uniform(-5, 5))
        elif op["f"] == "index":
            fp = np.arange(float(np.prod(shape))).reshape(shape)
        elif op["f"] == "remap" and (ob.weights or ob.kind.startswith("dg.")):
            f = g.uniform(-1, 1, ob.src_shape())
            r = sim.call(lambda: ob.real.remap(f, verbose=False))
            must(r.ok, "remap-fails", "%s: %s" % (ob.kind, r.describe()))
            fp = r.value
            inside = inside & np.isfinite(fp) if not flat else inside
            if not flat and not np.isfinite(fp).all():
                fp = np.where(np.isfinite(fp), fp, 0.)
                inside = np.ones(shape, bool)
        else:
            fp = g.uniform(-1, 1, shape)
        sg = g.uniform(.1, 1, shape) if op["sigma"] else None
        w = None
        if op["w"]:
            w = {"pos": g.uniform(.1, 2, shape), "zeros": np.where(g.uniform(0, 1, shape) < .3, 0., g.uniform(.1, 1, shape)),
                 "binary": (g.uniform(0, 1, shape) < .6).astype(float), "const": np.full(shape, 2.5)}[op["w"]]
        if flat and op["dirt"] and not inside.all():
            fp = np.array(fp, float)
            v = {"nan": np.nan, "huge": 1e300, "inf": np.inf}[op["dirt"]]
            fp[~inside] = v
            if sg is not None:
                sg[~inside] = v
        kw = {}
        if sg is not None:
            kw["sigma"] = sg
        if w is not None:
            kw["w"] = w
        if "verbose" in op:
            kw["verbose"] = op["verbose"]
        desc = "step %d: %s.polar2radial(%s map%s%s) after %s; source %s target %s" % (
            step, ob.kind, op["f"], ", errors" if op["sigma"] else "", ", %s weights" % op["w"] if op["w"] else "", last[o],
            ob.src["kw"], ob.tgt["kw"])
        if op["mask"] and flat:
            r = sim.call(lambda: ob.real.get_mask_in_bound(verbose=False))
            must(r.ok, "mask-fails", "%s: %s" % (desc, r.describe()))
        before = [x if x is None else x.copy() for x in (fp, sg, w)]
        fn = lambda: ob.real.polar2radial(fp, **kw)
        if op.get("fault"):
            r, p, f = sim.faulty(fn, op["fault"])
            op["fault"] = f
            if r.ok:
                self.judge(sim, ob, r.value, before, desc + " (hit by a fault)", step, flat)
            else:
                last[o] = "faulted profile"
        r = sim.call(fn)
        must(r.ok, "profile-fails", "%s: %s" % (desc, r.describe()))
        self.judge(sim, ob, r.value, before, desc, step, flat)
        if last[o] != "start" and not last[o].startswith("setup"):
            sim.nontrivial = True
        sim.note(ob.kind, last[o], op["f"], op["sigma"], op["w"], bool(op.get("fault")), bool(inside.all()), bool(inside.any()))
        sim.log(step, ob.kind, last[o], float(np.nansum(np.asarray(r.value, float))))
        sim.stats["profiles judged"] += 1
        last[o] = "profile"

    def judge(self, sim, ob, got, data, desc, step, flat):
        fp, sg, w = data
        k, s = ob.tgt["kw"], ob.src["kw"]
        d = lambda n: k.get(n, geom.DEFAULTS[n])
        if flat:
            inside = self.mask(sim, ob, step) == 1.
            re = overlap.redges(ob.tgt)
            area = (re[1:] ** 2 - re[:-1] ** 2) * (d("pmax") - d("pmin")) / k["nump"] / 2
            pix = (s["xmax"] - s["xmin"]) / s["numx"] * (s["ymax"] - s["ymin"]) / s["numy"]
        else:
            inside = np.ones(fp.shape, bool)
            ae = geom.edges(k["alpha_min"], k["alpha_max"], k["num_alpha"])
            area = (d("beta_max") - d("beta_min")) / k["num_beta"] * (np.cos(ae[:-1]) - np.cos(ae[1:]))
            pix = 4 * np.pi / (12. * s["nside"] ** 2)
        W = np.where(inside, 1. if w is None else w, 0.)
        F = np.where(inside, fp, 0.)
        with np.errstate(all="ignore"):
            e = (F * W).sum(0) / W.sum(0)
            mag = (np.abs(F) * W).sum(0) / W.sum(0)
        S = None
        if sg is not None:
            if not (isinstance(got, tuple) and len(got) == 2):
                raise Violation("malformed", "%s returned %r" % (desc, got))
            got, gs = got
            Q = np.where(inside, sg, 0.)
            with np.errstate(all="ignore"):
                S = np.sqrt((pix / area * (W * Q) ** 2).sum(0)) / W.sum(0)
        parts = [("profile", got, e, 1e-10 * mag)]
        if S is not None:
            parts.append(("error", gs, S, 1e-9 * np.abs(S)))
        for name, a, b, tol in parts:
            a = np.asarray(a)
            if a.shape != b.shape:
                raise Violation("malformed", "%s: %s has shape %s, expected %s" % (desc, name, a.shape, b.shape))
            with np.errstate(all="ignore"):
                bad = ~((np.abs(a - b) <= tol + 1e-300) | (np.isnan(a) & np.isnan(b)))
            if bad.any():
                i = int(np.argmax(bad))
                raise Violation("wrong-" + name, "%s: %s of ring %d is %r, expected %r (%d of %d cells of the ring in bounds)" % (
                    desc, name, i, a[i].item(), b[i].item(), inside[:, i].sum(), len(inside)))


WORLD = World()
