"""C23: what a call was given and what it returned belong to the caller: writing there later changes nothing else."""
import json

import numpy as np

from .. import catalog, geom, hist, prog, runner, sim as simmod
from ..kernel import Violation
from . import c14

KINDS = (("interrupt", 6), ("alarm", 1), ("memory", 2), ("alloc", 3))


def scribble(v, depth=0):
    """Writes into everything that can be written to.  Returns the arrays and lists written to."""
    out = []
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            for x in v.ravel():
                out += scribble(x, depth + 1)
        elif v.size and v.flags.writeable:
            k = v.dtype.kind
            v[...] = ~v if k == "b" else 3 if k in "iu" else 777.5
            out.append(v)
    elif isinstance(v, list) and depth < 4:
        for i, x in enumerate(v):
            if isinstance(x, bool) or x is None or isinstance(x, str):
                continue
            if isinstance(x, (int, np.integer)):
                v[i] = 0
            elif isinstance(x, float):
                v[i] = .5 * x + .3
            else:
                out += scribble(x, depth + 1)
        out.append(v)
    elif isinstance(v, (tuple, dict)) and depth < 4:
        for x in v.values() if isinstance(v, dict) else v:
            out += scribble(x, depth + 1)
    return out


def leaves(v, depth=0):
    """the arrays and lists in a value"""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            for x in v.ravel():
                yield from leaves(x, depth + 1)
        else:
            yield v
    elif isinstance(v, (list, tuple, dict)) and depth < 4:
        if isinstance(v, list):
            yield v
        for x in v.values() if isinstance(v, dict) else v:
            yield from leaves(x, depth + 1)


def look(x):
    return x.tobytes() if isinstance(x, np.ndarray) else repr([y for y in x if not isinstance(y, np.ndarray)])


def overlap(x, y):
    if x is y:
        return True
    if not isinstance(x, np.ndarray) or not isinstance(y, np.ndarray):
        return False
    try:
        return np.shares_memory(x, y, max_work=10000)
    except np.exceptions.TooHardError:
        return False


class Recycled(dict):
    """The caller's arrays.  Those it wrote into are filled with other values and used again in later calls."""

    def __init__(self, refilled):
        self.spare, self.refilled, self.on = [], refilled, False

    def clear(self):
        if self.on:
            for x in self.values():
                if isinstance(x, np.ndarray) and not any(x is y for y in self.spare):
                    self.spare.append(x)
        dict.clear(self)

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray):
            for i, x in enumerate(self.spare):
                if x.shape == v.shape and x.dtype == v.dtype and x.strides == v.strides and x.flags.writeable and v.flags.writeable:
                    x[...] = v
                    v = self.spare.pop(i)
                    self.refilled(v)
                    break
        dict.__setitem__(self, k, v)


class World:
    prop = "C23"
    runs = {"quick": 5000, "thorough": 100000}
    cap = {"quick": 80, "thorough": 800}
    rule = "a run is non-trivial when a caller wrote into an array that a call had been given or had returned, and later calls were judged"
    measure = "distinct (call, what was written to, later call) situations plus distinct fault sites"
    real = ["all of magpie's library functions and remappers", "numpy", "scipy", "healpy"]
    stub = ["interrupts, timeouts and allocation failures (at chosen events)", "uninitialised memory (simulated contents)",
            "standard output", "clock"]
    assumptions = ["the attributes an object publishes belong to the object: the caller does not write into them"]
    refs = {"run": c14.ref_run}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        mode = rng.weighted([("functions", 4), ("objects", 5), ("mixed", 2), ("one", 2)])
        n = rng.int(3, 8)
        if mode == "functions":
            ops = [{"t": "fn", "c": catalog.gen(rng)} for _ in range(n)]
        elif mode == "one":
            if rng.chance(.4):              # many points, as many in every call
                rng.fixed = rng.choice([20, 64, 100, 300, 1100])
            c = catalog.gen(rng)
            ops = []
            for _ in range(n):
                d = json.loads(json.dumps(c))
                if rng.chance(.4):
                    d = catalog.gen(rng, groups=(c["g"],))
                elif rng.chance(.5):
                    d = catalog.vary(rng, c)
                ops.append({"t": "fn", "c": d})
            rng.fixed = None
        else:
            ops = prog.gen_program(rng, n, fn_share=.1 if mode == "objects" else .5, size=4)
            if mode == "objects" and rng.chance(.4):        # the same questions again
                uses = [x for x in ops if x["t"] in ("remap", "mask", "profile", "rotate", "transform", "reverse")]
                for _ in range(2):
                    if uses:
                        ops.append(json.loads(json.dumps(rng.choice(uses))))
        rate = rng.choice([.3, .6, 1.])
        for op in ops:
            if op["t"] in ("seed", "new"):
                continue
            if rng.chance(rate):
                op["wipe"] = rng.choice(["args", "result", "both", "both"])
            if rng.chance(.2):
                op["fault"] = hist.gen_fault(rng, KINDS)
                op["again"] = rng.chance(.6)
        return {"env": hist.gen_env(rng), "ops": ops, "recycle": rng.chance(.6)}

    def execute(self, plan, sim):
        m = prog.Machine()
        m.pool = Recycled(self.refilled)
        m.pool.on = bool(plan.get("recycle"))
        did, got = [], []
        self.held = []              # (whose, is it an argument, array or list, what it holds)
        wiped = []
        for step, op in enumerate(plan["ops"]):
            if not m.possible(op):
                did.append(None)
                got.append(None)
                continue
            label = "step %d, %s %s" % (step, c14.name_of(op), json.dumps(op.get("c") or op.get("kw") or {})[:250])
            s0 = np.random.get_state()
            fn, data, after = m.prepare(op)
            o = None
            if op.get("fault"):
                o, p, f = sim.faulty(fn, op["fault"])
                op["fault"] = f
                if not o.ok and o.fired:
                    np.random.set_state(s0)
                    self.hold(label, data, None)
                    if op.get("wipe"):
                        self.wipe(sim, label + " (cut short)", "args", data, None, m)
                        wiped.append(step)
                    if not op.get("again"):
                        did.append(None)
                        got.append(None)
                        continue
                    o = None
                    fn, data, after = m.prepare(op)
            if o is None:
                o = sim.call(fn)
            if o.ok and after:
                after()
            did.append({k: v for k, v in op.items() if k not in ("fault", "again", "wipe")})
            got.append(c14.picture(o))
            sim.log(label, got[-1][1])
            self.hold(label, data, o.value if o.ok else None)
            if op.get("wipe"):
                if self.wipe(sim, label, op["wipe"], data, o.value if o.ok else None, m):
                    wiped.append(step)
                    sim.note(self.kind(m, op), op["wipe"])
        self.unchanged("at the end", ())
        if not wiped:
            return
        ref = sim.pristine("run", did)
        for step, (op, a, b) in enumerate(zip(did, got, ref)):
            if (a is None) != (b is None):
                raise RuntimeError("the programs differ at step %d" % step)
            if a is not None and a[1:] != b[1:]:
                raise Violation("hangs-on-callers-data", "step %d, %s %s: after the caller wrote into what calls (steps %s) had been given or had "
                                "returned, it %s; without that: %s" % (step, c14.name_of(op), json.dumps(op)[:300],
                                                                       [x for x in wiped if x < step], a[0], b[0]))
        for s in wiped:
            for j in range(s + 1, len(did)):
                if did[j] is not None:
                    sim.note("after", self.kind(m, plan["ops"][s]), self.kind(m, plan["ops"][j]))
                    sim.nontrivial = True

    def kind(self, m, op):
        return op["c"]["fn"] if op["t"] == "fn" else (op["t"], op.get("m"), m.ob[op["o"]].kind if op.get("o") in m.ob else "")

    def hold(self, label, data, value):
        for x in leaves(tuple(data)):
            if not any(e[2] is x for e in self.held):
                self.held.append([label, True, x, look(x)])
        for x in leaves(value):
            for e in self.held:
                if overlap(e[2], x):
                    raise Violation("shares-memory", "what %s returns shares memory with the %s of %s" % (
                        label, "argument" if e[1] else "result", e[0]))
            self.held.append([label, False, x, look(x)])

    def refilled(self, x):
        for e in self.held:
            if e[1] and overlap(e[2], x):
                e[3] = look(e[2])

    def unchanged(self, when, wiped, arg=False):
        for e in self.held:
            if look(e[2]) == e[3]:
                continue
            mine = any(e[2] is x for x in wiped) or e[1] and arg and any(overlap(e[2], x) for x in wiped)
            # an argument that is the very array a result is, counts as a result
            if mine:
                e[3] = look(e[2])
                continue
            raise Violation("shared-with-caller", "the %s of %s changed %s" % (
                "argument" if e[1] else "result", e[0], when))

    def wipe(self, sim, label, what, data, value, m):
        self.unchanged("during " + label, ())
        n = 0
        if value is not None and what in ("result", "both"):
            own = [x for x in leaves(value)]
            for e in self.held:
                if e[1] and any(e[2] is x for x in own):
                    raise Violation("shared-with-caller", "%s returns an array or a list it was given" % label)
            w = scribble(value)
            self.unchanged("when the caller wrote into the result of " + label, w)
            n += len(w)
        if what in ("args", "both"):
            w = scribble(tuple(data))
            # other arrays of the caller may share memory by its own doing
            self.unchanged("when the caller wrote into the arguments of " + label, w, True)
            m.pool.clear()
            n += len(w)
        if n:
            sim.stats["arguments and results overwritten"] += n
        return n


WORLD = World()
