"""C18: a copy of a remapper or view, in this process or after a restart, is as good as the original and independent of it."""
import copy
import pickle

import numpy as np

from .. import geom, hist, prog, runner
from ..hist import must
from ..kernel import Violation
from ..sim import brief, canon, fork_call, same

HOW = ("copy", "deepcopy", "pickle")
KINDS = (("interrupt", 4), ("memory", 1), ("alloc", 3), ("alarm", 1))


def duplicate(real, how, protocol=5):
    if how == "copy":
        return copy.copy(real)
    if how == "deepcopy":
        return copy.deepcopy(real)
    return pickle.loads(pickle.dumps(real, protocol))


def perform(sim, m, op):
    """One further call; what the caller sees."""
    if op["t"] == "weights":
        np.random.seed(op["seed"])
    fn, data, after = m.prepare(op)
    r = sim.call(fn)
    if r.ok and after:
        after()
    return (r.ok, r.value if r.ok else type(r.exc).__name__)


def ask(sim, o, pr):
    """Everything a caller can learn from an object."""
    if o.kind == "pov":
        if o.setup is None:
            r = sim.call(lambda: o.real.transform(*[np.array([1.])] * 3))
            return [("transform", r.ok, r.value if r.ok else None)]
        g = np.random.Generator(np.random.PCG64(pr["s"]))
        x, b = g.uniform(-5, 5, (3, 4)), g.uniform(-2, 2, (2, 4))
        out = []
        for n, fn in (("transform", lambda: o.real.transform(*x)), ("reverse", lambda: o.real.reverse(b[0], b[1], np.abs(x[0]) + .1))):
            r = sim.call(fn)
            out.append((n, r.ok, r.value if r.ok else None))
        return out
    if not o.ready:
        return []
    return hist.answers(sim, o, pr)


def adopt(kind, real, src, tgt, weights, setup):
    if kind == "pov":
        o = type("Pov", (), {})()
        o.setup = setup
    else:
        o = hist.Obj(kind)
        o.src, o.tgt, o.weights = src, tgt, weights
    o.kind, o.real = kind, real
    return o


def restored(sim, blob, kind, src, tgt, weights, setup, ops, pr):
    """In a process in which nothing was ever called: load, go on, answer."""
    import magpie.densegrid         # noqa: F401
    import magpie.montecarlo        # noqa: F401
    m = prog.Machine()
    m.ob["a"] = o = adopt(kind, pickle.loads(blob), src, tgt, weights, setup)
    first = ask(sim, o, pr)
    seen = []
    for op in ops:
        op = dict(op, o="a")
        if m.possible(op):
            seen.append((op["t"],) + perform(sim, m, op))
    return first, seen, ask(sim, o, pr)


class World:
    prop = "C18"
    runs = {"quick": 2000, "thorough": 60000}
    cap = {"quick": 75, "thorough": 800}
    rule = ("a run is non-trivial when a copy, or an object restored in another process, was questioned after calls made since "
            "on it or on the original")
    measure = ("distinct (object, how it was copied, state it was in, what was done last) situations plus distinct fault sites")
    real = ["magpie.densegrid and magpie.montecarlo (all remappers and the view)", "magpie.randoms", "magpie.coords",
            "magpie.polar", "magpie.utils", "numpy", "healpy", "copy", "pickle"]
    stub = ["process restart (a process in which nothing of magpie was ever called, given only the pickle)",
            "uninitialised memory (simulated contents)", "standard output", "clock", "signals", "memory allocation failures"]
    assumptions = ["the same version of magpie and numpy before and after a restart",
                   "the program does not write into the arrays it reads from a remapper's attributes"]
    refs = {"restored": restored}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        kind = rng.weighted(prog.KINDS)
        mc = (2, 5, 20) if "Cube" in kind else (2, 5, 50)
        ops = prog.prologue(rng, "a", kind, 4, mc)
        if rng.chance(.25):         # copied before it is complete
            ops = ops[:rng.int(1, len(ops))]
        names = ["a"]
        src = {"a": next((op for op in ops if op.get("role") == "src"), None)}
        full = src["a"] or dict(geom.gen_source(rng, kind, 4), role="src") if kind != "pov" else None

        def further(o, faults=True):
            c = rng.weighted([("use", 5), ("tgt", 2), ("src", 1.5), ("weights", 2), ("clean", .5)])
            if kind == "pov":
                op = prog.gen_pov_setup(rng, o) if c in ("tgt", "src") else {"t": "clean", "o": o} if c == "clean" else prog.gen_use(rng, o, kind, mc)
            elif c == "use":
                op = prog.gen_use(rng, o, kind, mc)
            elif c == "weights" and kind.startswith("mc."):
                op = {"t": "weights", "o": o, "mc": rng.choice(mc), "verbose": False}
            elif c == "clean":
                op = {"t": "clean", "o": o}
            elif c == "src":
                op = dict(geom.gen_source(rng, kind, 4), role="src", t="setup", o=o)
                src[o] = op
            else:
                op = dict(geom.gen_target(rng, kind, src.get(o) or full, 4), role="tgt", t="setup", o=o)
            if op["t"] == "weights":
                op["seed"] = rng.int(0, 2 ** 32 - 1)
            if faults and rng.chance(.2):
                op["fault"] = hist.gen_fault(rng, KINDS)
            return op
        for op in ops:
            if op["t"] == "weights":
                op["seed"] = rng.int(0, 2 ** 32 - 1)
        for _ in range(rng.int(0, 3)):
            ops.append(further("a"))
        for _ in range(rng.int(3, 9)):
            o = rng.choice(names)
            t = rng.weighted([("copy", 2 if len(names) < 4 else 0), ("restart", 1), ("op", 5), ("both", 2 if len(names) > 1 else 0),
                              ("drop", .3 if len(names) > 1 else 0)])
            if t == "copy":
                n = "abcdef"[len(names)]
                op = {"t": "copy", "o": o, "to": n, "how": rng.choice(HOW), "protocol": rng.int(2, 5)}
                if rng.chance(.2):
                    op["fault"] = hist.gen_fault(rng, KINDS)
                names.append(n)
                src[n] = src.get(o)
                ops.append(op)
            elif t == "restart":
                ops.append({"t": "restart", "o": o, "protocol": rng.int(2, 5), "then": [further(o, False) for _ in range(rng.int(0, 3))]})
            elif t == "both":
                ops.append({"t": "both", "o": o, "op": further(o, False)})
            elif t == "drop":
                ops.append({"t": "drop", "o": o})
            else:
                ops.append(further(o))
        return {"env": hist.gen_env(rng), "kind": kind, "ops": ops, "probes": hist.probes(rng), "asks": rng.choice(["fork", "fork", "here"])}

    def execute(self, plan, sim):
        m = prog.Machine()
        pr = plan["probes"]
        kind = plan["kind"]
        twin = {}           # copies still in the state of their original
        known = {}          # what each object answered when it was last asked
        copies = set()

        def look(n):
            o = m.ob[n]
            return fork_call(lambda: ask(sim, o, pr)) if plan["asks"] == "fork" else ask(sim, o, pr)

        def others(n, msg):
            for k in sorted(m.ob):
                if k not in n and k in known:
                    hist.compare_answers(look(k), known[k], "copies-not-independent", "%s: object %s" % (msg, k))
        for step, op in enumerate(plan["ops"]):
            t = op["t"]
            if t == "new":
                fn, _, _ = m.prepare(op)
                fn()
                continue
            n = op["o"]
            if n not in m.ob:
                continue
            o = m.ob[n]
            msg = "step %d: %s %s" % (step, kind, t)
            if t == "copy":
                known.setdefault(n, look(n))
                fn = lambda: duplicate(o.real, op["how"], op["protocol"])
                if op.get("fault"):
                    r, p, f = sim.faulty(fn, op["fault"])
                    op["fault"] = f
                    if not r.ok:
                        others((), msg + " (%s) cut short" % op["how"])
                        r = sim.call(fn)
                else:
                    r = sim.call(fn)
                must(r.ok, "cannot-be-copied", "%s: %s %s" % (msg, op["how"], r.describe()))
                s = None if kind == "pov" else (o.src, o.tgt, o.weights)
                c = adopt(kind, r.value, *(s or (None, None, False)), o.setup if kind == "pov" else None)
                m.ob[op["to"]] = c
                known[op["to"]] = got = look(op["to"])
                hist.compare_answers(got, known[n], "copy-differs", "%s: the %s answers otherwise than the original" % (msg, op["how"]))
                others((op["to"],), msg)
                twin[op["to"]] = n
                copies.add(op["to"])
                sim.note("copy", kind, op["how"], self.state(o))
                sim.stats["copies made (%s)" % op["how"]] += 1
            elif t == "restart":
                self.restart(sim, m, n, op, pr, msg, known, twin)
                others((n,), msg)
                known[n] = look(n)
            elif t == "drop":
                if len(m.ob) > 1:
                    del m.ob[n]
                    known.pop(n, None)
                    twin = {a: b for a, b in twin.items() if n not in (a, b)}
                    others((), msg)
            elif t == "both":
                pair = next(((a, b) for a, b in sorted(twin.items()) if n in (a, b)), None)
                if pair is None:
                    continue
                q = op["op"]
                if not (m.possible(dict(q, o=pair[0])) and m.possible(dict(q, o=pair[1]))):
                    continue
                a, b = (perform(sim, m, dict(q, o=k)) for k in pair)
                must(same(a, b), "copy-differs", "%s: %s on %s gives %s, on its original %s" % (
                    msg, q["t"], pair[0], brief(a), brief(b)))
                twin = {k: v for k, v in twin.items() if (k, v) == pair or not {k, v} & set(pair)}
                known[pair[0]], known[pair[1]] = x, y = look(pair[0]), look(pair[1])
                hist.compare_answers(x, y, "copy-differs", "%s: after %s on both" % (msg, q["t"]))
                others(pair, msg)
                sim.nontrivial = True
                sim.note("both", kind, q["t"], self.state(m.ob[pair[0]]))
            else:
                if not m.possible(op):
                    continue
                if t == "weights":
                    np.random.seed(op["seed"])
                fn, data, after = m.prepare(op)
                if op.get("fault"):
                    r, p, f = sim.faulty(fn, op["fault"])
                    op["fault"] = f
                else:
                    r = sim.call(fn)
                if r.ok and after:
                    after()
                if t not in ("remap", "profile", "rotate", "transform", "reverse", "mask"):
                    twin = {a: b for a, b in twin.items() if n not in (a, b)}
                if copies:
                    sim.nontrivial = True
                    sim.note("op", kind, t, op.get("role"), n in copies, bool(op.get("fault")))
                others((n,), "%s on object %s" % (msg, n))
                known[n] = look(n)
        sim.log("end", sorted(m.ob), [canon(known[k]) for k in sorted(known)].__repr__()[:2000])

    def state(self, o):
        return (o.setup is not None,) if o.kind == "pov" else (o.src is not None, o.tgt is not None, o.weights)

    def restart(self, sim, m, n, op, pr, msg, known, twin):
        o = m.ob[n]
        r = sim.call(lambda: pickle.dumps(o.real, op["protocol"]))
        must(r.ok, "cannot-be-copied", "%s: pickling %s" % (msg, r.describe()))
        s = (None, None, False, o.setup) if o.kind == "pov" else (o.src and hist.clean_op(o.src), o.tgt and hist.clean_op(o.tgt), o.weights, None)
        then = [q for q in op["then"]]
        first, seen, last = sim.pristine("restored", r.value, o.kind, *s, then, pr)
        sim.stats["fault process restart"] += 1

        def here():
            a = ask(sim, o, pr)
            b = []
            for q in then:
                q = dict(q, o=n)
                if m.possible(q):
                    b.append((q["t"],) + perform(sim, m, q))
            return a, b, ask(sim, o, pr)
        a, b, c = fork_call(here)
        hist.compare_answers(first, a, "restored-differs", msg + ": after a restart")
        for (t, ok, v), (t2, ok2, v2) in zip(seen, b):
            must(ok == ok2 and same(v, v2), "restored-differs", "%s: %s after a restart gives %s, without %s" % (msg, t, brief(v), brief(v2)))
        hist.compare_answers(last, c, "restored-differs", "%s: after a restart and %s" % (msg, [q["t"] for q in then]))
        sim.nontrivial = True
        sim.note("restart", o.kind, self.state(o), [q["t"] for q in then])


WORLD = World()
