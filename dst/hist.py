"""Histories of remapper objects: generation, the model of what is set up, and performing operations."""
import numpy as np

from . import geom, sim as simmod
from .kernel import Violation

FAULT_KINDS = (("interrupt", 6), ("memory", 2), ("alloc", 2), ("alarm", 1))


def gen_fault(rng, kinds=FAULT_KINDS):
    f = {"kind": rng.weighted(kinds), "u": rng.u(), "u2": rng.u(),
         "mode": rng.weighted([("uniform", 3), ("site", 5), ("late", 2), ("early", 1)])}
    if f["kind"] == "stdout":
        f["exc"] = rng.choice(["epipe", "enospc", "eio", "value", "interrupt"])
        f["sticky"] = rng.chance(.3)
    return f


def gen_env(rng, stream=False):
    e = {"seed": rng.seed() % (2 ** 32), "poison": rng.choice([None] + sorted(simmod.PATTERNS)),
         "perturb": rng.choice([0, 0, 255, 0x7f, 1]), "clock": [rng.uniform(0, 2e9), rng.choice([1e-3, 0., 5., -1.])]}
    if stream:
        e["stream"] = gen_stream(rng)
    return e


def gen_stream(rng):
    m = rng.weighted([("real", 5), ("zero", 1), ("max", 1), ("const", 1), ("few", 2), ("edges", 3), ("alt", 1), ("ramp", 1)])
    return [m, rng.seed(), rng.choice([.5, .25, 1 - 2. ** -53, 2. ** -53, rng.u()])]


def shaped(spec, shape):
    return geom.mk(dict(spec, shape=list(shape)))


def rejected(rng, op):
    """A setup call with one illegal argument."""
    kw = dict(op["kw"])
    bad = {"numx": 0, "numy": 0, "numz": 0, "nside": 3, "numr": 0, "nump": 0, "num_alpha": 0, "num_beta": 0,
           "x_grid": 0, "y_grid": 0, "rmin": -1., "alpha_min": -.5}
    names = [n for n in bad if n in kw]
    if "center" in kw and rng.chance(.2):
        kw["center"] = {"center": [1.] * (len(kw["center"]["center"]) + 1), "as": "list"}
    elif names:
        n = rng.choice(names)
        kw[n] = bad[n]
    return {"m": op["m"], "kw": kw}


def odd_center(rng, op):
    """A setup call whose center lies beyond a full turn or over a pole: the center must still be left alone."""
    kw = dict(op["kw"])
    if len(kw["center"]["center"]) != 2:
        return rejected(rng, op)
    c = [rng.choice([rng.uniform(-7., -.1), rng.uniform(6.3, 13.), rng.uniform(0., 6.)]),
         rng.choice([rng.uniform(0., 3.), rng.uniform(0., 3.), rng.uniform(-1., -.1), rng.uniform(3.2, 6.)])]
    kw["center"] = {"center": c, "as": rng.choice(["list", "array"])}
    return {"m": op["m"], "kw": kw}


def nudge(rng, op):
    """The same setup with one number changed by very little."""
    kw = dict(op["kw"])
    e = 1. - 10. ** -rng.uniform(3.5, 8.5)
    names = [n for n in ("xmax", "ymax", "zmax", "rmax", "pmax", "alpha_max", "beta_max", "x_length", "y_length", "radius",
                         "phi_shift", "beta_shift", "alpha") if kw.get(n)]
    if "center" in kw and any(kw["center"]["center"]):
        names.append("center")
    if not names:
        return op
    n = rng.choice(names)
    if n == "center":
        c = list(kw[n]["center"])
        i = rng.choice([i for i, v in enumerate(c) if v])
        c[i] *= e
        kw[n] = {"center": c, "as": kw[n]["as"]}
    elif n.endswith("max") and n[:-3] + "min" in kw:
        kw[n] -= (kw[n] - kw[n[:-3] + "min"]) * (1. - e)
    else:
        kw[n] *= e
    return dict(op, kw=kw)


SHAPES = ("numx", "numy", "numz", "numr", "nump", "nside", "x_grid", "y_grid", "num_alpha", "num_beta", "rebin_r", "rebin_p",
          "rebin_alpha", "rebin_beta", "rebin_x", "rebin_y", "rebin_shell")


def elsewhere(rng, kind, op, g):
    """The setup op with one or two of its numbers, but none of its array sizes, as in g."""
    from .worlds.c01 import valid
    if op["m"] != g["m"]:
        return op
    names = sorted(n for n in g["kw"] if n not in SHAPES)
    for _ in range(4):
        kw = dict(op["kw"])
        for n in rng.sample(names, min(len(names), rng.int(1, 2))):
            kw[n] = g["kw"][n]
        if valid(kind, op["m"], kw) and kw.get("rmin", 1.) > (0. if op["m"].endswith("log") else -1.):
            return dict(op, kw=kw)
    return op


class Obj:
    """A real remapper and the grids it should currently have."""

    def __init__(self, kind):
        self.kind = kind
        self.real = geom.cls_of(kind)()
        self.src = self.tgt = None
        self.was = None             # shape of the source before a clean
        self._sub = None

    @property
    def ready(self):
        return self.src is not None and self.tgt is not None

    def geo(self):
        return (geom.normal(self.kind, self.src), geom.normal(self.kind, self.tgt)) if self.ready else None

    def sub(self):
        if self._sub is None:
            self._sub = geom.dense_sub(self.kind, self.src, self.tgt)
        return self._sub

    def set(self, op):
        self._sub = None
        if op["role"] == "src":
            self.src = op
        else:
            self.tgt = op

    def unset(self):
        if self.src is not None:
            self.was = self.src_shape()
        self._sub = None
        self.src = self.tgt = None

    def possible(self, op):
        """targets of sky and dense 3D remappers are set up after the source"""
        return op["role"] == "src" or self.src is not None or geom.family(self.kind) == "Box2Ring" \
            or (self.kind.startswith("mc."))

    def src_shape(self):
        return geom.src_shape(self.kind, self.src)

    def tgt_shape(self):
        return geom.tgt_shape(self.kind, self.tgt)


def mapless(rng, **k):
    """a map spec without shape (the shape comes from the grids at execution)"""
    s = geom.map_spec(rng, (1,), **k)
    s.pop("shape")
    if s.get("dtype") in ("int64", "int16"):
        s["kind"] = "int"
    return s


def weightless(rng, zeros=True):
    s = geom.weight_spec(rng, (1,), zeros)
    s.pop("shape")
    return s


def must(cond, what, msg):
    if not cond:
        raise Violation(what, msg)


def do_setup(sim, ob, op, retry=True):
    """A (possibly faulted) setup, repeated until it succeeded."""
    fn = lambda: geom.apply(ob.real, op)
    f = op.get("fault")
    if f:
        o, p, g = sim.faulty(fn, f)
        if g:
            op["fault"] = g
        if o.ok:
            if o.fired:
                sim.stats["faults absorbed"] += 1
            ob.set(op)
            return True
        if not retry or op.get("drop") and (ob.src if op["role"] == "src" else ob.tgt) is not None:
            sim.stats["failed setups left at that"] += 1
            return False
        sim.nontrivial = True
    o = sim.call(fn)
    must(o.ok, "setup-fails", "%s %s(%s) fails: %s" % (ob.kind, op["m"], op["kw"], o.describe()))
    ob.set(op)
    return True


def do_rejected(sim, ob, op):
    o = sim.call(lambda: geom.apply(ob.real, op))
    if o.ok:        # accepted after all: then it is the current grid, which no model describes
        return False
    sim.stats["rejected setups"] += 1
    return True


def gen_half(rng, st, o):
    """After a clean: only one of the two grids is set up, with the arguments of an earlier setup."""
    op = st["src"] if rng.chance(.5) else st["tgt"]
    return {"o": o, "t": "half", "m": op["m"], "kw": op["kw"], "role": op["role"], "s": rng.seed()}


def do_half(sim, ob, op, msg):
    """A cleaned remapper that is given one grid only has nothing to answer from."""
    if ob.src is not None or ob.tgt is not None or ob.was is None:
        return
    sim.call(lambda: geom.apply(ob.real, op))
    shape = ob.was
    f = np.random.Generator(np.random.PCG64(op["s"])).uniform(0, 1, shape)
    if ob.kind.startswith("mc."):
        np.random.seed(op["s"] % 2 ** 32)
        r = sim.call(lambda: ob.real.get_weights(mc_size=3, verbose=False))
        must(not r.ok, "answers-after-clean", "%s: %s.get_weights works although only %s was called after clean()" % (
            msg, ob.kind, op["m"]))
    r = sim.call(lambda: ob.real.remap(f, verbose=False))
    must(not r.ok, "answers-after-clean", "%s: %s.remap answers although only %s was called after clean()" % (
        msg, ob.kind, op["m"]))
    sim.stats["half-configured remappers asked"] += 1
    must(sim.call(ob.real.clean).ok, "clean-fails", msg)


# -------------------------------------------------------------------------------- Monte Carlo

def seed_all(sim, s, stream=None):
    from . import seams
    np.random.seed(s % (2 ** 32))
    seams.RANDOM.set(*(stream or ["real", 0, 0.0]))


def weights_fn(ob, op):
    kw = {}
    if op.get("mc") is not None:
        kw["mc_size"] = op["mc"]
    if "verbose" in op:
        kw["verbose"] = op["verbose"]
    return lambda: ob.real.get_weights(**kw)


def probes(rng, n=2):
    """maps to ask a remapper about (shapes come later)"""
    return {"f": [mapless(rng, simple=True) for _ in range(n)], "w": weightless(rng, False), "s": rng.seed()}


def answers(sim, ob, pr, what=("remap", "wremap", "mask", "profile", "sprofile")):
    """Everything a caller can learn from a configured remapper, as [(question, ok, value)]."""
    out = []
    fam = geom.family(ob.kind)

    def ask(name, fn):
        o = sim.call(fn)
        out.append((name, o.ok, o.value if o.ok else None))
        return o
    fs = [shaped(f, ob.src_shape()) for f in pr["f"]]
    w = shaped(pr["w"], ob.src_shape())
    g = np.random.Generator(np.random.PCG64(pr["s"]))
    fp = g.uniform(-1, 1, ob.tgt_shape())
    sg = g.uniform(.1, 1, ob.tgt_shape())
    wp = g.uniform(.1, 1, ob.tgt_shape())
    if "remap" in what:
        for i, f in enumerate(fs):
            ask("remap %d" % i, lambda: ob.real.remap(f, verbose=False))
    if "wremap" in what:
        ask("weighted remap", lambda: ob.real.remap(fs[0], w=w, verbose=False))
    if fam == "Box2Ring" and "mask" in what:
        def mask():
            ob.real.get_mask_in_bound(verbose=False)
            return np.array(ob.real.mask_in_bound)
        ask("mask", mask)
    if fam in ("Box2Ring", "Heal2Ring"):
        if "profile" in what:
            ask("profile", lambda: ob.real.polar2radial(fp))
        if "sprofile" in what:
            ask("profile with errors", lambda: ob.real.polar2radial(fp, sigma=sg, w=wp))
    return out


def compare_answers(a, b, what, msg):
    for (n, ok1, v1), (m, ok2, v2) in zip(a, b):
        if ok1 != ok2:
            raise Violation(what, "%s: %s %s, expected %s" % (
                msg, n, "answers " + simmod.brief(v1) if ok1 else "is refused",
                simmod.brief(v2) if ok2 else "a refusal"))
        if ok1 and not simmod.same(v1, v2):
            d = ""
            try:
                d = simmod.first_difference(v1, v2)
            except Exception:
                pass
            raise Violation(what, "%s: %s differs: %s (%s)" % (msg, n, simmod.brief(v1, 120), d))


def ref_fresh(sim, kind, src, tgt, mc, seed, stream, pr, what):
    """What a fresh remapper in a fresh process answers after an undisturbed weight calculation."""
    ob = Obj(kind)
    geom.apply(ob.real, src)
    ob.set(src)
    geom.apply(ob.real, tgt)
    ob.set(tgt)
    seed_all(sim, seed, stream)
    o = sim.call(weights_fn(ob, {"mc": mc, "verbose": False}))
    if not o.ok:
        raise Violation("weights-fail", "%s.get_weights(mc_size=%s) on a fresh object, source %s target %s: %s" % (
            kind, mc, src["kw"], tgt["kw"], o.describe()))
    return answers(sim, ob, pr, what)


def clean_op(op):
    return {"m": op["m"], "kw": op["kw"], "role": op["role"]}
