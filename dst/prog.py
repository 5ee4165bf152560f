"""Programs: sequences of calls of functions and of methods of several remapper objects, as data.

ops   {"t": "fn", "c": catalog call}
      {"t": "new", "o": name, "kind": kind}            kind also "pov" (PointOfView)
      {"t": "setup", "o": name, "role", "m", "kw"}
      {"t": "weights", "o", "mc", "verbose"}
      {"t": "remap", "o", "f", "w", "verbose"}
      {"t": "mask" | "clean" | "rotate" | "profile" | "transform" | "pov..." , ...}
      {"t": "seed", "s": n}
Arguments of the caller are kept, so that they can be looked at while and after a call runs.
"""
import json

import numpy as np

from . import boot, catalog, geom, hist

PI = geom.PI


def new_pov():
    from magpie.densegrid import PointOfView
    return PointOfView()


class Machine:
    """The objects of a running program and what is set up in each."""

    def __init__(self):
        self.ob = {}
        self.pool = {}

    def new(self, op):
        if op["kind"] == "pov":
            o = type("Pov", (), {})()
            o.kind, o.real, o.setup = "pov", new_pov(), None
        else:
            o = hist.Obj(op["kind"])
            o.weights = False
        self.ob[op["o"]] = o

    def possible(self, op):
        t = op["t"]
        if t in ("fn", "new", "seed"):
            return True
        o = self.ob.get(op["o"])
        if o is None:
            return False
        if o.kind == "pov":
            return t in ("povsetup", "clean") or o.setup is not None
        if t == "setup":
            return o.possible(op)
        if t == "clean":
            return True
        if not o.ready:
            return False
        if t in ("remap", "mask") and o.kind.startswith("mc."):
            return o.weights
        if t == "profile" and o.kind == "mc.Box2Ring":
            return o.weights
        return True

    def arr(self, spec, shape):
        s = dict(spec, shape=list(shape))
        k = json.dumps(s, sort_keys=True)
        if k not in self.pool:
            self.pool[k] = geom.mk(s)
        return self.pool[k]

    def prepare(self, op):
        """(the call, the caller's data it is given, what to do after it succeeded)"""
        t = op["t"]
        if t == "fn":
            fn, data = catalog.build(op["c"], self.pool)
            return fn, data, None
        if t == "seed":
            return (lambda: np.random.seed(op["s"])), [], None
        if t == "new":
            return (lambda: self.new(op)), [], None
        o = self.ob[op["o"]]
        r = o.real
        if t == "clean":
            def after():
                if o.kind == "pov":
                    o.setup = None
                else:
                    o.unset()
                    o.weights = False
            return (lambda: r.clean()), [], after
        if o.kind == "pov":
            if t == "povsetup":
                a = {"camera": catalog.arg(op["camera"], self.pool), "point": catalog.arg(op["point"], self.pool),
                     "display": op["display"]}
                if "spin" in op:
                    a["spin"] = op["spin"]

                def after():
                    o.setup = op
                return (lambda: r.setup(**a)), list(a.values()), after
            a = [self.arr(dict(s), [op["n"]]) for s in op["xyz"]]
            return (lambda: getattr(r, {"transform": "transform", "reverse": "reverse"}[t])(*a)), a, None
        if t == "setup":
            kw = geom.real_kw(op["kw"])

            def after():
                o.set(op)
                o.weights = False
            return (lambda: getattr(r, op["m"])(**kw)), list(kw.values()), after
        if t == "weights":
            kw = {"mc_size": op["mc"]}
            if op.get("verbose") is not None:
                kw["verbose"] = op["verbose"]

            def after():
                o.weights = True
            return (lambda: r.get_weights(**kw)), [], after
        v = {} if op.get("verbose") is None else {"verbose": op["verbose"]}
        if t == "remap":
            f = self.arr(op["f"], o.src_shape())
            a = {"f": f}
            if op.get("w") is not None and o.kind != "dg.Cube2Shell":
                a["w"] = self.arr(op["w"], o.src_shape())
            return (lambda: r.remap(**a, **v)), list(a.values()), None
        if t == "mask":
            def mask():
                r.get_mask_in_bound(**v)
                return np.array(r.mask_in_bound)
            return mask, [], None
        if t == "rotate":
            f = self.arr(op["f"], o.tgt_shape())
            return (lambda: r.rotate_polar(f, op["shift"])), [f], None
        if t == "profile":
            a = {"f_polar": self.arr(op["f"], o.tgt_shape())}
            if op.get("s") is not None:
                a["sigma"] = self.arr(op["s"], o.tgt_shape())
            if op.get("w") is not None:
                a["w"] = self.arr(op["w"], o.tgt_shape())
            return (lambda: r.polar2radial(**a, **v)), list(a.values()), None
        if t == "transform":
            a = [self.arr(s, [op["n"]]) for s in op["xyz"]]
            return (lambda: r.transform(*a)), a, None
        raise KeyError(t)


def gen_pov_setup(rng, o):
    flav = rng.choice(["list", "tuple", "arr"])

    def pt():
        v = [rng.uniform(-3, 3) for _ in range(3)]
        if flav == "arr":
            return {"arr": {"shape": [3], "kind": "range", "lo": -3, "hi": 3, "seed": rng.seed(), "readonly": rng.chance(.3)}}
        return {flav: v}
    op = {"t": "povsetup", "o": o, "camera": pt(), "point": pt(), "display": rng.uniform(.2, 3)}
    if rng.chance(.6):
        op["spin"] = rng.choice([0., rng.uniform(.01, 6.2)])
    return op


def gen_use(rng, o, kind, mc):
    """A use of a configured object."""
    fam = geom.family(kind)
    v = rng.choice([None, True, False, False])
    if kind == "pov":
        n = rng.int(1, 5) if rng.chance(.97) else rng.int(20, 120)
        if rng.chance(.6):
            return {"t": "transform", "o": o, "n": n, "xyz": [{"kind": "range", "lo": -5, "hi": 5, "seed": rng.seed()} for _ in range(3)]}
        return {"t": "reverse", "o": o, "n": n, "xyz": [{"kind": "range", "lo": -2, "hi": 2, "seed": rng.seed()} for _ in range(2)] +
                [{"kind": "range", "lo": .5, "hi": 5, "seed": rng.seed()}]}
    c = [("remap", 5)]
    if kind.startswith("mc."):
        c.append(("weights", 1.5))
    if fam == "Box2Ring":
        c.append(("mask", 1))
    if fam in ("Box2Ring", "Heal2Ring"):
        c += [("profile", 3), ("rotate", 1)]
    if fam == "Heal2Ortho":
        c.append(("transform", 2))
    t = rng.weighted(c)
    op = {"t": t, "o": o, "verbose": v}
    if t == "weights":
        op["mc"] = rng.choice(mc)
    elif t == "remap":
        op["f"] = mapspec(rng)
        op["w"] = wspec(rng) if rng.chance(.4) else None
    elif t == "profile":
        op["f"] = mapspec(rng)
        op["s"] = wspec(rng) if rng.chance(.5) else None
        op["w"] = wspec(rng) if rng.chance(.5) else None
    elif t == "rotate":
        op["f"] = mapspec(rng)
        op["shift"] = rng.uniform(.01, 6.2)
    elif t == "transform":
        op["n"] = rng.int(1, 5)
        op["xyz"] = [{"kind": "range", "lo": 0., "hi": 6.28, "seed": rng.seed()}, {"kind": "range", "lo": 0., "hi": PI, "seed": rng.seed()}]
    return op


def mapspec(rng):
    s = {"kind": rng.choice(["rand", "pos", "index"]), "seed": rng.seed()}
    if rng.chance(.2):
        s["layout"] = rng.choice(["F", "S", "R"])
    if rng.chance(.3):
        s["readonly"] = True
    return s


def wspec(rng):
    s = {"kind": "pos", "seed": rng.seed()}
    if rng.chance(.3):
        s["readonly"] = True
    return s


KINDS = [(k, 3. if "Box2Ring" in k else 2.) for k in geom.DENSE + geom.MC] + [("pov", 3.)]


def prologue(rng, o, kind, size=3, mc=(2, 5, 20)):
    """Create and configure an object."""
    ops = [{"t": "new", "o": o, "kind": kind}]
    if kind == "pov":
        return ops + [gen_pov_setup(rng, o)]
    src = dict(geom.gen_source(rng, kind, size), role="src", t="setup", o=o)
    tgt = dict(geom.gen_target(rng, kind, src, size), role="tgt", t="setup", o=o)
    ops += [src, tgt]
    if kind.startswith("mc."):
        ops.append({"t": "weights", "o": o, "mc": rng.choice(mc), "verbose": rng.choice([True, False])})
    return ops


def gen_program(rng, length, fn_share=.6, size=3, mc=(2, 5, 20), objects=2, random=None):
    """A program of about length ops."""
    ops = []
    kinds = {}
    srcs = {}
    while len(ops) < length:
        if rng.chance(fn_share):
            ops.append({"t": "fn", "c": catalog.gen(rng, random)})
            continue
        if len(kinds) < objects and (not kinds or rng.chance(.3)):
            o = "abc"[len(kinds)]
            kinds[o] = rng.weighted(KINDS)
            p = prologue(rng, o, kinds[o], size, mc)
            if kinds[o] != "pov":
                srcs[o] = p[1]
            ops += p
            ops.append(gen_use(rng, o, kinds[o], mc))
            continue
        o = rng.choice(sorted(kinds))
        k = kinds[o]
        c = rng.weighted([("use", 7), ("tgt", 1.5), ("src", 1), ("clean", .3)])
        if c == "use":
            ops.append(gen_use(rng, o, k, mc))
        elif k == "pov":
            ops.append(gen_pov_setup(rng, o) if c != "clean" else {"t": "clean", "o": o})
        elif c == "clean":
            ops.append({"t": "clean", "o": o})
            ops += prologue(rng, o, k, size, mc)[1:]
            srcs[o] = [x for x in ops if x.get("o") == o and x.get("role") == "src"][-1]
        elif c == "src":
            srcs[o] = dict(geom.gen_source(rng, k, size), role="src", t="setup", o=o)
            ops.append(srcs[o])
            if k == "dg.Cube2Shell":
                ops.append(dict(geom.gen_target(rng, k, srcs[o], size), role="tgt", t="setup", o=o))
        else:
            ops.append(dict(geom.gen_target(rng, k, srcs[o], size), role="tgt", t="setup", o=o))
        if c in ("src", "tgt") and k.startswith("mc.") and rng.chance(.8):
            ops.append({"t": "weights", "o": o, "mc": rng.choice(mc), "verbose": rng.choice([True, False])})
    return ops
