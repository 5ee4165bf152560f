"""C17: the grid a remapper publishes is the grid most recently set up, through every history."""
import copy

import numpy as np

from .. import geom, hist, runner
from ..geom import center_of, edges, family, mids
from ..hist import must

KINDS = (("interrupt", 6), ("memory", 2), ("alloc", 2), ("alarm", 1))


def plane(src, lo, hi, n):
    return edges(src[lo], src[hi], src[n])


def published(kind, role, op):
    """What the attributes must be: {name: value}; a value is a number, an array, or a list (the center)."""
    k = op["kw"]
    d = lambda n: k.get(n, geom.DEFAULTS[n])
    f = family(kind)
    out = {}

    def axis(n, e, dn):
        out[n + "edges"] = e
        out[n + "mid"] = mids(e)
        out["d" + dn] = e[1] - e[0]
    if role == "src":
        if f == "Box2Ring":
            axis("x", plane(k, "xmin", "xmax", "numx"), "x")
            axis("y", plane(k, "ymin", "ymax", "numy"), "y")
            out["x2d"] = np.tile(out["xmid"], (k["numy"], 1))
            out["y2d"] = np.tile(out["ymid"], (k["numx"], 1)).T
        elif f == "Cube2Shell":
            for n in "xyz":
                axis(n, plane(k, n + "min", n + "max", "num" + n), n)
            one = np.ones((k["numy"], k["numx"], k["numz"]))
            out["x3d"] = one * out["xmid"][None, :, None]
            out["y3d"] = one * out["ymid"][:, None, None]
            out["z3d"] = one * out["zmid"][None, None, :]
        else:
            out["nside"] = k["nside"]
        return out
    if f in ("Box2Ring", "Cube2Shell"):
        if op["m"] == "setup_polar_log":
            a, b, n = np.log(k["rmin"]), np.log(k["rmax"]), k["numr"]
            if d("addzero"):
                e = np.append([0.], np.exp(edges(a, b, n - 1)) if n > 1 else [k["rmin"]])
            else:
                e = np.exp(edges(a, b, n))
            out["redges"], out["rmid"], out["dr"] = e, mids(e), np.diff(e)
        else:
            axis("r", edges(k["rmin"], k["rmax"], k["numr"]), "r")
        if f == "Cube2Shell":
            out["nside"] = k["nside"]
            out["center"] = center_of(k, 3)
            return out
        axis("p", edges(d("pmin"), d("pmax"), k["nump"]), "p")
        a, b = "r", "p"
        out["center"] = center_of(k, 2)
        out["phi_shift"] = d("phi_shift")
    elif f == "Heal2Ring":
        for n, num in (("alpha", "num_alpha"), ("beta", "num_beta")):
            e = edges(d(n + "_min") if n == "beta" else k["alpha_min"], d(n + "_max") if n == "beta" else k["alpha_max"], k[num])
            out[n + "_edges"], out[n + "_mid"], out["d" + n] = e, mids(e), e[1] - e[0]
        out["center"] = center_of(k, 2)
        out["beta_shift"] = d("beta_shift")
        a, b = "alpha", "beta"
    else:
        nx = k["x_grid"]
        ny = k.get("y_grid", nx)
        yl = k.get("y_length", min(k["x_length"], geom.PI) if f == "Heal2Polar" else k["x_length"])
        axis("x", edges(-k["x_length"] / 2, k["x_length"] / 2, nx), "x")
        axis("y", edges(-yl / 2, yl / 2, ny), "y")
        out["center"] = center_of(k, 2)
        if f == "Heal2Polar":
            out["alpha"] = d("alpha")
        a, b = "x", "y"
    ma, mb = (out[n + ("_mid" if f == "Heal2Ring" else "mid")] for n in (a, b))
    out[a + "2d"] = np.tile(ma, (len(mb), 1))
    out[b + "2d"] = np.tile(mb, (len(ma), 1)).T
    if f == "Heal2Ortho":
        r = d("radius")
        rho = out["x2d"] ** 2 + out["y2d"] ** 2
        out["radius"] = r
        rim = np.abs(rho - r * r) < 1e-6 * r * r
        out["onsphere"] = (np.where(rho < r * r, 1., np.nan), rim)
        out["z2d"] = (np.sqrt(np.maximum(r * r - rho, 0.)), rim)
    return out


def names_of(kind):
    """names published for each role"""
    rng = Fixed()
    src = geom.gen_source(rng, kind, 2)
    return {"src": sorted(published(kind, "src", src)), "tgt": sorted(published(kind, "tgt", geom.gen_target(rng, kind, src, 2)))}


class Fixed:
    """a stand-in for a random source that always takes the first choice"""
    def chance(self, p):
        return False

    def int(self, a, b):
        return b

    def uniform(self, a, b):
        return .5 * (a + b)

    def choice(self, l):
        return l[0]

    def weighted(self, l):
        return l[0][0]


def picture(v):
    if v is None:
        return None
    a = np.array(v)
    return (a.shape, a.dtype.str, a.tobytes())


class World:
    prop = "C17"
    runs = {"quick": 4000, "thorough": 120000}
    cap = {"quick": 75, "thorough": 800}
    rule = ("a run is non-trivial when it inspects a published grid after a re-setup, a refused, failed or interrupted call, "
            "a clean, or another object's setup")
    measure = "distinct (remapper, operation inspected after, fault kind, fault site) tuples plus distinct fault sites"
    real = ["magpie.densegrid and magpie.montecarlo (all nine remappers)", "magpie.coords", "magpie.randoms", "magpie.polar",
            "magpie.utils", "numpy", "healpy"]
    stub = ["uninitialised memory (simulated contents)", "standard output", "clock", "signals (raised at chosen bytecode events)",
            "memory allocation failures"]
    assumptions = ["values compared to 1e-10 of the grid's scale",
                   "the caller does not change the sequence it passed as center while the grid is in use"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        from .c01 import valid
        size = 6 if rng.chance(.9) else 12
        pool = geom.DENSE + geom.MC
        kinds = [rng.choice(pool)]
        while rng.chance(.45) and len(kinds) < 3:
            kinds.append(kinds[0] if rng.chance(.6) else rng.choice(pool))
        state = [{"src": None, "tgt": None, "old": []} for _ in kinds]
        ops = []

        def setup(o, role):
            st = state[o]
            prev = [p for p in st["old"] if p["role"] == role]
            if prev and rng.chance(.2):
                op = copy.deepcopy(rng.choice(prev))
                if rng.chance(.3):
                    op = hist.nudge(rng, op)
            else:
                g = geom.gen_source(rng, kinds[o], size, True) if role == "src" else \
                    geom.gen_target(rng, kinds[o], st["src"], size, True)
                if prev and prev[-1]["m"] == g["m"] and rng.chance(.5):     # only part of the grid changes
                    kw = dict(prev[-1]["kw"])
                    for n in rng.sample(sorted(set(g["kw"]) | set(kw)), rng.int(1, 2)):
                        if n in g["kw"]:
                            kw[n] = g["kw"][n]
                        else:
                            kw.pop(n)
                    if valid(kinds[o], g["m"], kw) and kw.get("rmin", 1.) > (0. if g["m"].endswith("log") else -1.):
                        g = {"m": g["m"], "kw": kw}
                op = dict(g, role=role)
            op = dict(op, o=o, t="setup")
            st["old"].append(copy.deepcopy(op))
            if rng.chance(.35):
                op["fault"] = hist.gen_fault(rng, KINDS)
                op["drop"] = rng.chance(.5)
            if not (op.get("drop") and st[role] is not None):
                st[role] = op
            ops.append(op)
        for o in range(len(kinds)):
            setup(o, "src")
            setup(o, "tgt")
        for _ in range(rng.int(2, 9)):
            o = rng.int(0, len(kinds) - 1)
            st = state[o]
            t = rng.weighted([("src", 4), ("tgt", 4), ("use", 4), ("bad", 2), ("clean", 1), ("new", .4)])
            if t == "new":
                ops.append({"o": o, "t": "new"})
                state[o] = {"src": None, "tgt": None, "old": st["old"]}
                setup(o, "src")
                setup(o, "tgt")
            elif t in ("src", "tgt"):
                setup(o, t)
            elif t == "bad":
                ops.append(dict(hist.rejected(rng, st["tgt"] if rng.chance(.6) else st["src"]), o=o, t="bad"))
            elif t == "use":
                ops.append({"o": o, "t": "use", "what": rng.choice(["remap", "remap", "mask", "profile", "rotate", "weights"]),
                            "s": rng.seed(), "fault": hist.gen_fault(rng, KINDS) if rng.chance(.3) else None})
            else:
                ops.append({"o": o, "t": "clean", "fault": hist.gen_fault(rng, KINDS) if rng.chance(.4) else None,
                            "drop": rng.chance(.5)})
                if rng.chance(.8):
                    for r in (["src", "tgt"] if not kinds[o].startswith("mc.") else rng.shuffle(["src", "tgt"])):
                        setup(o, r)
        return {"env": hist.gen_env(rng), "kinds": kinds, "ops": ops}

    def execute(self, plan, sim):
        obs = [hist.Obj(k) for k in plan["kinds"]]
        names = [names_of(k) for k in plan["kinds"]]
        kept = []       # arrays read earlier: (when, name, array, picture)
        for o, ob in enumerate(obs):
            self.inspect(sim, ob, names[o], "fresh object", kept)
        for step, op in enumerate(plan["ops"]):
            o = op["o"]
            if o >= len(obs):
                continue
            if op["t"] == "new":            # the object is dropped and another one takes its name
                k, ob, other, fn = obs[o].kind, None, None, None
                obs[o] = None
                obs[o] = hist.Obj(k)
                self.inspect(sim, obs[o], names[o], "step %d: new object" % step, kept)
                continue
            ob, t = obs[o], op["t"]
            msg = "step %d: after %s %s" % (step, ob.kind, op.get("m") or op.get("what") or t)
            f = op.get("fault")
            site = None
            if t == "setup":
                if not ob.possible(op):
                    continue
                fn = lambda: geom.apply(ob.real, op)
            elif t == "bad":
                if not ob.ready:
                    continue
                fn = lambda: geom.apply(ob.real, op)
            elif t == "clean":
                fn = ob.real.clean
            else:
                if not ob.ready:
                    continue
                fn = self.use(ob, op)
            again = ob.ready
            if f:
                r, p, g = sim.faulty(fn, f)
                op["fault"] = g
                site = r.where
                if not r.ok:
                    sim.nontrivial = True
                    self.inspect(sim, ob, names[o], msg + " cut short at %s" % (site,), kept)
                    sim.note("cut", ob.kind, t, op.get("m"), g and g["kind"], site)
                    if t == "setup" and not (op.get("drop") and (ob.src if op["role"] == "src" else ob.tgt) is not None) \
                            or t == "clean" and not op.get("drop"):
                        r = sim.call(fn)
                    else:
                        continue
            else:
                r = sim.call(fn)
            if t == "setup":
                must(r.ok, "setup-fails", "%s %s(%s) fails: %s" % (ob.kind, op["m"], op["kw"], r.describe()))
                ob.set(op)
            elif t == "clean":
                must(r.ok, "clean-fails", r.describe())
                ob.unset()
            elif t == "bad":
                if r.ok:
                    return          # accepted after all: no model of such a grid
                msg += " was refused"
            if again or t != "setup":
                sim.nontrivial = True
            for i, other in enumerate(obs):
                self.inspect(sim, other, names[i], msg, kept)
            sim.note("after", ob.kind, t, op.get("m") or op.get("what"), again, bool(f))
            for when, name, a, p in kept:
                must(picture(a) == p, "published-array-changed",
                     "%s: the array %s read %s has changed" % (msg, name, when))
        sim.log("inspected", sim.stats["attributes inspected"])

    def use(self, ob, op):
        g = np.random.Generator(np.random.PCG64(op["s"]))
        w = op["what"]
        fam = family(ob.kind)
        if w == "weights" and ob.kind.startswith("mc."):
            def weights():
                np.random.seed(op["s"] % 2 ** 32)
                return ob.real.get_weights(mc_size=3, verbose=False)
            return weights
        if w == "mask" and fam == "Box2Ring":
            return lambda: ob.real.get_mask_in_bound(verbose=False)
        if w in ("profile", "rotate") and fam in ("Box2Ring", "Heal2Ring"):
            fp = g.uniform(0, 1, ob.tgt_shape())
            if w == "profile":
                return lambda: ob.real.polar2radial(fp)
            a = g.uniform(0, 6.2)
            return lambda: ob.real.rotate_polar(fp, a)
        fm = g.uniform(0, 1, ob.src_shape())
        return lambda: ob.real.remap(fm, verbose=False)

    def inspect(self, sim, ob, names, msg, kept):
        for role, op in (("src", ob.src), ("tgt", ob.tgt)):
            want = published(ob.kind, role, op) if op is not None else {}
            for n in names[role]:
                if role == "tgt" and n in names["src"]:
                    continue
                got = getattr(ob.real, n, None)
                sim.stats["attributes inspected"] += 1
                if op is None:
                    must(got is None, "grid-without-setup", "%s: %s.%s is %s although no such grid is set up" % (
                        msg, ob.kind, n, brief(got)))
                    continue
                bad = wrong(got, want[n])
                must(not bad, "published-grid-wrong", "%s: %s.%s %s, for %s(%s)" % (msg, ob.kind, n, bad, op["m"], op["kw"]))
                if isinstance(got, np.ndarray) and len(kept) < 400 and not any(a is got for _, _, a, _ in kept):
                    kept.append((msg.replace("after", "at"), n, got, picture(got)))


def brief(v):
    return repr(v).replace("\n", " ")[:160]


def wrong(got, want):
    if got is None:
        return "is None"
    skip = None
    if isinstance(want, tuple):
        want, skip = want
    try:
        a = np.asarray(got, dtype=float)
    except Exception:
        return "is %s" % brief(got)
    b = np.asarray(want, dtype=float)
    if a.shape != b.shape:
        return "has shape %s, expected %s" % (a.shape, b.shape)
    fin = np.abs(b[np.isfinite(b)])
    tol = 1e-10 * max(fin.max() if fin.size else 1., 1e-300) + 1e-10 * np.abs(b)
    with np.errstate(all="ignore"):
        bad = ~((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b)))
    if skip is not None:
        bad &= ~skip
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0]) if b.ndim else ()
        return "is %r%s, expected %r (%d of %d values wrong)" % (float(a[i]), " at %s" % (i,) if i else "", float(b[i]),
                                                              int(bad.sum()), bad.size)
    return None


WORLD = World()
