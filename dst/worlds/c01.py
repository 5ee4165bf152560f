"""C01: higher-resolution remaps follow the current grids through every history."""
import copy

import numpy as np

from .. import geom, hist, runner
from ..hist import must
from ..kernel import Violation

NOISE = {"Box2Ring": ("mask", "profile", "rotate"), "Heal2Ring": ("profile", "rotate"), "Heal2Ortho": ("transform",),
         "Cube2Shell": (), "Heal2Polar": ()}


class World:
    prop = "C01"
    runs = {"quick": 3000, "thorough": 70000}
    cap = {"quick": 75, "thorough": 800}
    rule = ("a run is non-trivial when it checks at least one remap against the independent model after a re-setup, a "
            "clean, another object's setup or a call cut short by a fault")
    measure = ("distinct (remapper, operation before, fault site) tuples at which a remap was then checked, and distinct "
               "fault sites")
    real = ["magpie.densegrid (all five remappers)", "magpie.coords", "magpie.polar", "magpie.utils", "numpy", "healpy"]
    stub = ["uninitialised memory (simulated contents)", "standard output", "clock", "signals (raised at chosen bytecode events)"]
    assumptions = ["sub-cell centres within 1e-9 of a pixel boundary may count for either pixel",
                   "HEALPix pixel of a direction as healpy.vec2pix (the reference's own geometry is otherwise independent of magpie)",
                   "targets of sky and 3D remappers are first set up after their source (as documented), re-setups come in any order"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        big = tier == "thorough" and rng.chance(.2)
        size = 14 if big else 6
        kinds = [rng.choice(geom.DENSE)]
        if rng.chance(.4):
            kinds.append(kinds[0] if rng.chance(.7) else rng.choice(geom.DENSE))
        ops = []
        state = [{"src": None, "tgt": None, "old": []} for _ in kinds]

        def setup(o, role):
            st = state[o]
            if st["old"] and rng.chance(.2):        # back to an earlier grid
                prev = [p for p in st["old"] if p["role"] == role]
                if prev:
                    op = copy.deepcopy(rng.choice(prev))
                    op.pop("fault", None)
                    return add(o, op)
            g = geom.gen_source(rng, kinds[o], size, True) if role == "src" else geom.gen_target(rng, kinds[o], st["src"], size, True)
            prev = st[role]
            if prev is not None and prev["m"] == g["m"] and rng.chance(.5):     # change only part of the grid
                kw = dict(prev["kw"])
                names = sorted(set(g["kw"]) | set(kw))
                for n in rng.sample(names, rng.int(1, 2)):
                    if n in g["kw"]:
                        kw[n] = g["kw"][n]
                    else:
                        kw.pop(n)
                if valid(kinds[o], g["m"], kw):
                    g = {"m": g["m"], "kw": kw}
            elif prev is not None and rng.chance(.3):           # other numbers, the same array sizes
                g = hist.elsewhere(rng, kinds[o], {"m": prev["m"], "kw": dict(prev["kw"])}, g)
            add(o, dict(g, role=role))

        def add(o, op):
            op = dict(op, o=o, t="setup")
            if rng.chance(.25):
                op["fault"] = hist.gen_fault(rng)
                op["drop"] = rng.chance(.4)
            st = state[o]
            st["old"].append({k: v for k, v in copy.deepcopy(op).items() if k not in ("fault", "drop")})
            if not (op.get("drop") and st[op["role"]] is not None):     # else the earlier grid stays current
                st[op["role"]] = op
            ops.append(op)

        for o in range(len(kinds)):
            setup(o, "src")
            setup(o, "tgt")
        n = rng.int(3, 9 if not big else 16) if rng.chance(.985) else rng.int(30, 60)
        for _ in range(n):
            o = rng.int(0, len(kinds) - 1)
            t = rng.weighted([("remap", 8), ("src", 3), ("tgt", 3), ("both", 1), ("bad", 1), ("clean", .6), ("noise", 1.5),
                              ("new", .4)])
            if t == "new":
                ops.append({"o": o, "t": "new"})
                prev = state[o]["src"], state[o]["tgt"]
                state[o] = {"src": None, "tgt": None, "old": state[o]["old"]}
                # one of the grids stays what it was, or both keep their shapes
                same = rng.weighted([("src", 1), ("tgt", 1), ("shapes", 2)])
                for role, p in zip(("src", "tgt"), prev):
                    if same == "shapes":
                        g = geom.gen_source(rng, kinds[o], size) if role == "src" else \
                            geom.gen_target(rng, kinds[o], prev[0], size)
                        add(o, dict(hist.elsewhere(rng, kinds[o], p, g) if role == "tgt" or rng.chance(.5) else p, fault=None))
                    elif same == role and (role == "src" or "Heal" in kinds[o]):
                        add(o, dict(copy.deepcopy(p), fault=None))
                    else:
                        setup(o, role)
            elif t in ("src", "tgt"):
                setup(o, t)
            elif t == "both":
                for r in rng.shuffle(["src", "tgt"]):
                    setup(o, r)
            elif t == "bad":
                st = state[o]
                base = st["tgt"] if rng.chance(.6) else st["src"]
                ops.append(dict(hist.rejected(rng, base), o=o, t="bad"))
            elif t == "clean":
                ops.append({"o": o, "t": "clean", "fault": hist.gen_fault(rng) if rng.chance(.2) else None})
                if rng.chance(.5):
                    ops.append(hist.gen_half(rng, state[o], o))
                setup(o, "src")
                setup(o, "tgt")
            elif t == "noise":
                c = NOISE[geom.family(kinds[o])]
                if c:
                    ops.append({"o": o, "t": rng.choice(c), "s": rng.seed(), "a": rng.uniform(0, 6.2),
                                "fault": hist.gen_fault(rng) if rng.chance(.2) else None})
            if t == "remap" or rng.chance(.5):
                ops.append(self.remap(rng, kinds[o], o))
        for o in range(len(kinds)):
            ops.append(self.remap(rng, kinds[o], o))
        return {"env": hist.gen_env(rng), "kinds": kinds, "ops": ops}

    def remap(self, rng, kind, o):
        op = {"o": o, "t": "remap", "f": hist.mapless(rng, kinds=geom.MAPS), "verbose": rng.chance(.5),
              "reuse": rng.weighted([(None, 6), ("write", 1), ("same", 1.5)])}
        if geom.family(kind) != "Cube2Shell" and rng.chance(.45):
            op["w"] = hist.weightless(rng)
            op["rew"] = rng.weighted([(None, 3), ("same", 1), ("kept", 1)])
        if rng.chance(.25):
            op["fault"] = hist.gen_fault(rng)
        return op

    def execute(self, plan, sim):
        obs = [hist.Obj(k) for k in plan["kinds"]]
        kept = []           # results handed out earlier
        last = ["start"] * len(obs)
        buf = {}
        for step, op in enumerate(plan["ops"]):
            o = op["o"]
            if o >= len(obs):
                continue
            if op["t"] == "new":            # the object is dropped and another one takes its name
                k, ob = obs[o].kind, None
                obs[o] = None
                obs[o] = hist.Obj(k)
                last[o] = "new"
                continue
            ob, t = obs[o], op["t"]
            if t == "setup":
                if not ob.possible(op):
                    continue
                ready = ob.ready
                before = op.get("fault")
                if not hist.do_setup(sim, ob, op):
                    last[o] = "failed setup"
                    continue
                last[o] = ("re" if ready else "") + op["role"] + ("!" if before else "")
                if ready:
                    last[:] = [x if i == o or x != "start" else "other" for i, x in enumerate(last)]
            elif t == "bad":
                if ob.ready and not hist.do_rejected(sim, ob, op):
                    return
                last[o] = "rejected"
            elif t == "clean":
                if op.get("fault"):
                    r, p, g = sim.faulty(ob.real.clean, op["fault"])
                    op["fault"] = g
                r = sim.call(ob.real.clean)
                must(r.ok, "clean-fails", r.describe())
                ob.unset()
                last[o] = "clean"
            elif t == "half":
                hist.do_half(sim, ob, op, "step %d" % step)
                last[o] = "half"
            elif not ob.ready:
                continue
            elif t == "remap":
                self.check(sim, ob, op, step, kept, last, o, buf)
            else:
                self.noise(sim, ob, op)
                last[o] = t
        for step, got, copy_ in kept:
            must(np.array_equal(got, copy_, equal_nan=True), "result-changed",
                 "the result of step %d changed after it was returned" % step)

    def check(self, sim, ob, op, step, kept, last, o, buf):
        f = hist.shaped(op["f"], ob.src_shape())
        w = hist.shaped(op["w"], ob.src_shape()) if op.get("w") else None
        key = (o, f.shape, f.dtype.str)
        if op.get("reuse") == "same" and key in buf and buf[key].flags.writeable and f.dtype.kind == "f":
            buf[key][...] = f           # the caller refills the array it passed before
            f = buf[key]
        buf[key] = f
        if w is not None:
            key = (o, "w", w.shape, w.dtype.str)
            if key in buf and op.get("rew") == "kept":
                w = buf[key]            # the very weights of an earlier call
            elif key in buf and op.get("rew") == "same" and buf[key].flags.writeable:
                buf[key][...] = w       # the caller changes the weights it passed before
                w = buf[key]
            buf[key] = w
        kw = {}
        if w is not None:
            kw["w"] = w
        if not op.get("verbose", True):
            kw["verbose"] = False
        fn = lambda: ob.real.remap(f, **kw)
        site = None
        if op.get("fault"):
            r, p, g = sim.faulty(fn, op["fault"])
            op["fault"] = g
            site = r.where
            if r.ok:
                self.compare(ob, r.value, f, w, op, step, " (call hit by a fault)")
            else:
                sim.nontrivial = True
                last[o] = "faulted remap"
        r = sim.call(fn)
        must(r.ok, "remap-fails", "step %d: %s.remap %s" % (step, ob.kind, r.describe()))
        self.compare(ob, r.value, f, w, op, step, "")
        sim.note("remap", ob.kind, last[o], site, w is not None)
        sim.log("remap", ob.kind, r.value.shape)
        if last[o] not in ("src", "tgt", "start"):
            sim.nontrivial = True
        sim.stats["remaps checked"] += 1
        sim.stats["cells checked"] += r.value.size
        if op.get("reuse") == "write" and r.value.flags.writeable:
            r.value[...] = -12345.      # the caller overwrites what it was given
            r2 = sim.call(fn)
            must(r2.ok, "remap-fails", "step %d: second %s.remap %s" % (step, ob.kind, r2.describe()))
            self.compare(ob, r2.value, f, w, op, step, " (repeated after the first result was overwritten)")
            r = r2
        kept.append((step, r.value, r.value.copy()))
        if len(kept) > 6:
            kept.pop(0)

    def compare(self, ob, got, f, w, op, step, extra):
        bad = ob.sub().check(got, f, w) if isinstance(got, np.ndarray) else "result is %r" % (got,)
        if bad:
            raise Violation("wrong-remap", "step %d: %s%s; source %s target %s%s" % (
                step, ob.kind, extra, ob.src["kw"], ob.tgt["kw"], ": " + bad))

    def noise(self, sim, ob, op):
        t = op["t"]
        g = np.random.Generator(np.random.PCG64(op["s"]))
        if t == "mask":
            fn = lambda: ob.real.get_mask_in_bound(verbose=False)
        elif t == "transform":
            ph, th = g.uniform(0, 6, 4), g.uniform(.1, 3, 4)
            fn = lambda: ob.real.transform(ph, th)
        else:
            fp = g.uniform(0, 1, ob.tgt_shape())
            if t == "rotate":
                fn = lambda: ob.real.rotate_polar(fp, op["a"])
            else:
                fn = lambda: ob.real.polar2radial(fp)
        if op.get("fault"):
            r, p, fa = sim.faulty(fn, op["fault"])
            op["fault"] = fa
        else:
            sim.call(fn)


def valid(kind, m, kw):
    need = {"setup_box": (), "setup_polar": ("rmin", "rmax", "numr"), "setup_polar_cap": ("alpha_min", "alpha_max")}
    for n in need.get(m, ()):
        if n not in kw:
            return False
    if "rmax" in kw and not kw["rmin"] < kw["rmax"]:
        return False
    if "alpha_max" in kw and not kw["alpha_min"] < kw["alpha_max"]:
        return False
    for lo, hi in (("xmin", "xmax"), ("ymin", "ymax"), ("zmin", "zmax")):
        if lo in kw and not kw[hi] > kw[lo]:
            return False
    L = [kw[hi] - kw[lo] for lo, hi in (("xmin", "xmax"), ("ymin", "ymax"), ("zmin", "zmax")) if lo in kw]
    if L and max(L) > 1e5 * min(L):
        return False
    for lo, hi in (("pmin", "pmax"), ("beta_min", "beta_max")):
        a, b = kw.get(lo, 0.), kw.get(hi, geom.TWOPI)
        if not a < b - .01:
            return False
    if "x_length" in kw and "radius" in kw or geom.family(kind) == "Heal2Ortho" and "x_length" in kw:
        r = kw.get("radius", 1.)
        if kw["x_length"] > 3 * r or kw.get("y_length", 0.) > 3 * r:
            return False
    if kw.get("rebin_shell", 2) * kw.get("nside", 1) > 16:
        return False
    return True


WORLD = World()
