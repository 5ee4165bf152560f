"""C09: the caller's data is never modified, at no instant of any call."""
import json

from .. import catalog, hist, kernel, prog, runner, watch
from ..kernel import Violation

KINDS = (("interrupt", 6), ("memory", 2), ("alloc", 2), ("alarm", 1), ("stdout", 1))


def name_of(op):
    return op["c"]["fn"] if op["t"] == "fn" else "%s.%s" % (op.get("o"), op.get("m") or op["t"])


class World:
    prop = "C09"
    runs = {"quick": 1700, "thorough": 60000}
    cap = {"quick": 80, "thorough": 800}
    rule = "a run is non-trivial when calls with mutable arguments were watched at every event and at least one was faulted"
    measure = "distinct (call, argument forms, outcome) situations plus distinct fault sites"
    real = ["all of magpie", "numpy", "scipy", "healpy"]
    stub = ["clock", "standard output", "interrupts", "memory allocation failures", "uninitialised memory (simulated contents)"]
    assumptions = ["instants are observed at every line, call, return from a call and backward jump of magpie's code; a change "
                   "undone inside one statement without calls, or inside one C call, is seen only if it survives the statement"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        n = rng.int(4, 12)
        if rng.chance(.5):
            ops = prog.gen_program(rng, n, fn_share=.35)
        else:
            ops = [{"t": "fn", "c": catalog.gen(rng)} for _ in range(n)]
        for op in ops:
            if rng.chance(.2):
                op["fault"] = hist.gen_fault(rng, KINDS)
            if op["t"] == "fn" and rng.chance(.12):
                op["c"] = catalog.invalid(rng, op["c"])
                op["invalid"] = True
            if op["t"] == "setup" and rng.chance(.1):
                op.update(hist.rejected(rng, op))
                op["invalid"] = True
        if rng.chance(.35):
            ops += self.odd(rng)
        return {"env": hist.gen_env(rng), "ops": ops}

    def odd(self, rng):
        """an object with a center out of range: it may be refused sooner or later, but not changed"""
        while True:
            kind = rng.weighted(prog.KINDS)
            if kind != "pov":
                ops = prog.prologue(rng, "z", kind)
                at = [x for x in ops if x["t"] == "setup" and "center" in x["kw"]]
                if at:
                    break
        at[0].update(hist.odd_center(rng, at[0]))
        ops = [x for x in ops if x["t"] != "weights"] + [prog.gen_use(rng, "z", kind, (2, 5))]
        if kind.startswith("mc."):
            ops.insert(-1, {"t": "weights", "o": "z", "mc": 2, "verbose": False})
        for op in ops:
            if rng.chance(.1):
                op["fault"] = hist.gen_fault(rng, KINDS)
            if op["t"] != "new":
                op["invalid"] = op["odd"] = True
        return ops

    def execute(self, plan, sim):
        kernel.listen(True)
        m = prog.Machine()
        everything = watch.Watcher()
        dflt = watch.defaults()
        watched = faulted = 0
        for i, op in enumerate(plan["ops"]):
            if not m.possible(op):
                continue
            fn, data, after = m.prepare(op)
            mine = watch.Watcher()
            for k, v in enumerate(data):
                mine.add("argument %d" % k, v)
                everything.add("argument %d of call %d" % (k, i), v)
            what = "%s (call %d: %s)" % (name_of(op), i, json.dumps(op)[:400])
            items = mine.items + dflt.items
            if len(everything.items) <= 12:
                items = items + [x for x in everything.items if all(x[1] is not y[1] for y in mine.items)]
            found = []
            f = op.get("fault")
            if f:
                p = sim.profile(fn)
                f = sim.resolve(f, p)
                if f:
                    op["fault"] = f
            o = sim.call(fn, _fault=f, _probe=mine.probe(found, items))
            how = "returned" if o.ok else "raised %s" % type(o.exc).__name__
            if found:
                name, diff, where = found[0]
                raise Violation("changed-during", "%s changes %s while running (seen at %s): %s" % (what, name, where, diff))
            bad = mine.changed()
            if bad:
                raise Violation("changed-after", "%s %s and leaves %s changed: %s" % (what, how, bad[0], bad[1]))
            bad = everything.changed()
            if bad:
                raise Violation("changed-later", "%s %s and changes %s, given or returned before: %s" % (what, how, bad[0], bad[1]))
            bad = dflt.changed()
            if bad:
                raise Violation("default-changed", "%s %s and changes %s: %s" % (what, how, bad[0], bad[1]))
            if not o.ok and not o.fired and not op.get("invalid") and "read-only" in str(o.exc):
                raise Violation("writes", "%s wants to write to data that the caller may only read: %s" % (what, o.describe()))
            if o.ok:
                if after and (op.get("odd") or not op.get("invalid")):
                    after()
                elif after:     # an illegal setup that was accepted: nothing more is known of the object
                    m.ob.pop(op["o"], None)
                vs = o.value if isinstance(o.value, (list, tuple)) else [o.value]
                for k, v in enumerate(vs):
                    everything.add("result %d of call %d (%s)" % (k, i, name_of(op)), v)
            elif op["t"] in ("setup", "weights", "new", "clean", "povsetup") and op.get("o") in m.ob:
                # what a failed setup left is not of interest here: start again from a clean object
                m.new({"o": op["o"], "kind": m.ob[op["o"]].kind})
            watched += len(mine.items)
            faulted += bool(o.fired)
            sim.stats["values watched"] += len(items)
            sim.note(name_of(op), [type(v).__name__ for v in data], o.ok, bool(f))
            sim.log(name_of(op), o.ok, o.n)
        sim.nontrivial = bool(watched and faulted)


WORLD = World()
