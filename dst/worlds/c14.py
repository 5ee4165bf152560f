"""C14: failures reach the caller, nothing is swallowed, and nothing of a failed call stays behind."""
import gc
import json
import signal
import sys
import threading
import warnings

import numpy as np

from .. import catalog, geom, hist, prog, runner, sim as simmod
from ..kernel import Violation
from . import c01, c08

KINDS = (("interrupt", 6), ("alarm", 2), ("memory", 2), ("alloc", 4), ("stdout", 2))


def surroundings():
    """What a call may not leave changed behind it."""
    return json.dumps([c08.settings(), repr(warnings.filters), repr(warnings.showwarning), sys.getrecursionlimit(),
                       repr(signal.getsignal(signal.SIGINT)), repr(signal.getsignal(signal.SIGALRM)), gc.isenabled(),
                       threading.active_count(), repr(sys.gettrace()), repr(sys.getprofile()), repr(sys.excepthook)])


def name_of(op):
    return op["c"]["fn"] if op["t"] == "fn" else "%s.%s" % (op["o"], op.get("m", op["t"])) if "o" in op else op["t"]


def picture(o):
    return (o.describe()[:200], simmod.digest(o.value) if o.ok else type(o.exc).__name__, c08.state())


def ref_run(sim, ops):
    """The program without the failed calls: [(short picture, digest, generator state)] per op."""
    m = prog.Machine()
    out = []
    for op in ops:
        if op is None or not m.possible(op):
            out.append(None)
            continue
        fn, data, after = m.prepare(op)
        o = sim.call(fn)
        if o.ok and after:
            after()
        out.append(picture(o))
    return out


class World:
    prop = "C14"
    runs = {"quick": 6000, "thorough": 120000}
    cap = {"quick": 80, "thorough": 800}
    rule = "a run is non-trivial when a failure struck inside a call and a later call was compared with an undisturbed program"
    measure = "distinct (call, kind of failure, place in the code) situations"
    real = ["all of magpie's library functions and remappers", "numpy", "scipy", "healpy"]
    stub = ["interrupts and timeouts (raised at chosen bytecode events)", "the memory allocator's failures",
            "standard output (simulated stream that can fail at any write or flush)", "clock"]
    assumptions = ["a constructor cut short is repeated before its object is used",
                   "a failed sampling call may have used up random numbers: the generator is put back before comparing"]
    refs = {"run": ref_run}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        mode = rng.weighted([("functions", 5), ("objects", 4), ("mixed", 2), ("one", 2), ("setups", 3),
                             ("sweep", 3)])
        n = rng.int(3, 8)
        if mode == "functions":
            ops = [{"t": "fn", "c": catalog.gen(rng)} for _ in range(n)]
        elif mode == "sweep":
            return {"env": hist.gen_env(rng), "ops": self.gen_sweep(rng)}
        elif mode == "setups":
            return {"env": hist.gen_env(rng), "ops": self.gen_setups(rng)}
        elif mode == "one":         # one function, again and again
            c = catalog.gen(rng)
            ops = [{"t": "fn", "c": json.loads(json.dumps(c))} for _ in range(rng.int(2, 4))]
            for _ in range(n):
                d = catalog.gen(rng, groups=(c["g"],))
                if rng.chance(.3) or d["fn"] == c["fn"]:
                    ops.append({"t": "fn", "c": d})
            ops = rng.shuffle(ops)
        else:
            ops = prog.gen_program(rng, n, fn_share=.1 if mode == "objects" else .5, size=4 if rng.chance(.7) else 3)
        rate = rng.choice([.25, .5, .9])
        out = []
        for op in ops:
            if op["t"] == "fn" and rng.chance(.05):
                op["c"] = catalog.invalid(rng, op["c"])
            if op["t"] in ("weights", "remap", "mask", "profile") and rng.chance(.5):
                op["verbose"] = True
            if rng.chance(rate) and op["t"] != "seed":
                op["faults"] = [hist.gen_fault(rng, KINDS) for _ in range(rng.weighted([(1, 6), (2, 2), (3, 1)]))]
                op["again"] = rng.chance(.7)
            out.append(op)
            if op.get("faults") and op["t"] not in ("fn", "new") and rng.chance(.3):
                seen = [x for x in ops if x.get("o") == op["o"] and x["t"] not in ("fn", "new", "setup", "clean", "povsetup", "weights")]
                if seen:
                    out.append({k: v for k, v in json.loads(json.dumps(rng.choice(seen))).items() if k not in ("faults", "again", "sweep")})
        return {"env": hist.gen_env(rng), "ops": out}

    def gen_sweep(self, rng):
        """One call, failing in many places in turn."""
        kinds = rng.choice([KINDS, (("alloc", 1),), (("alloc", 1), ("memory", 1)), (("interrupt", 1),)])
        if rng.chance(.4):
            use = {"t": "fn", "c": catalog.gen(rng)}
            ops = []
        else:
            kind = rng.weighted(prog.KINDS)
            ops = prog.prologue(rng, "a", kind, 4, (2, 5, 20))
            use = prog.gen_use(rng, "a", kind, (2, 5, 20))
        use["sweep"] = [hist.gen_fault(rng, kinds) for _ in range(rng.int(6, 16))]
        return ops + [use]

    def gen_setups(self, rng):
        """Setups of a configured object that fail, and uses of it."""
        kind = rng.weighted(prog.KINDS)
        mc = (2, 5, 20)
        ops = prog.prologue(rng, "a", kind, 4, mc)
        src = ops[1]
        if rng.chance(.5):
            ops.append(prog.gen_use(rng, "a", kind, mc))
        for _ in range(rng.int(1, 4)):
            if kind == "pov":
                op = prog.gen_pov_setup(rng, "a")
            elif rng.chance(.08):
                op = {"t": "clean", "o": "a"}
            elif rng.chance(.5):
                op = dict(geom.gen_source(rng, kind, 4), role="src", t="setup", o="a")
            else:
                op = dict(geom.gen_target(rng, kind, src, 4), role="tgt", t="setup", o="a")
            if op["t"] == "setup" and rng.chance(.5):       # the same shapes, other places
                old = [x for x in ops if x.get("m") == op["m"]]
                if old:
                    kw = dict(op["kw"])
                    for k in ("numx", "numy", "numz", "numr", "nump", "nside", "x_grid", "y_grid", "num_alpha", "num_beta"):
                        if k in old[0]["kw"]:
                            kw[k] = old[0]["kw"][k]
                    if c01.valid(kind, op["m"], kw):
                        op["kw"] = kw
            op["faults"] = [hist.gen_fault(rng, KINDS[:4]) for _ in range(rng.int(1, 2))]
            op["again"] = op["t"] != "clean" and rng.chance(.2)
            if op["again"] and op.get("role") == "src":
                src = op
            ops.append(op)
            for _ in range(rng.int(1, 3)):
                ops.append(prog.gen_use(rng, "a", kind, mc))
        return ops

    def execute(self, plan, sim):
        m = prog.Machine()
        did, got, hard = [], [], []
        around = surroundings()
        for step, op in enumerate(plan["ops"]):
            if not m.possible(op):
                did.append(None)
                got.append(None)
                continue
            label = "step %d, %s %s" % (step, name_of(op), json.dumps(op.get("c") or op.get("kw") or {})[:250])
            s0 = np.random.get_state()
            if op.get("sweep"):
                hard += [step] * self.sweep(sim, m, op, label, around, s0)
            failed = returned = None
            faults = op.get("faults") or []
            for i in range(len(faults)):
                fn, data, after = m.prepare(op)
                before = c08.state()
                o, p, f = sim.faulty(fn, faults[i])
                if f:
                    faults[i] = f
                what = "%s with %s at %s" % (label, "no failure" if not o.fired else f["kind"], o.where or (f and f["n"]))
                if not o.kept:
                    raise Violation("residue", "%s leaves another sys.stdout behind" % what)
                if surroundings() != around:
                    raise Violation("residue", "%s changes the process's settings: %s, before %s" % (what, surroundings(), around))
                if o.ok or not o.fired:
                    self.normal(o, p, what)
                    returned = o
                    break
                if not self.same_error(f, o, p):
                    raise Violation("error-not-reported", "%s %s instead of raising the failure's error" % (what, o.describe()))
                failed = f
                hard.append(step)
                sim.stats["failures reported"] += 1
                sim.note(name_of(op), f["kind"], o.where or f["n"])
                random = op["t"] == "weights" or op["t"] == "fn" and op["c"]["random"]
                if not random and c08.state() != before:
                    raise Violation("residue", "%s changes the generator's state" % what)
                np.random.set_state(s0)
            if returned is not None:        # the failure did not matter
                if returned.ok and after:
                    after()
                did.append({k: v for k, v in op.items() if k not in ("faults", "again", "sweep")})
                got.append(picture(returned))
                continue
            if failed and not op.get("again") and op["t"] != "new":
                did.append(None)
                got.append(None)
                continue
            fn, data, after = m.prepare(op)
            o = sim.call(fn)
            if o.ok and after:
                after()
            did.append({k: v for k, v in op.items() if k not in ("faults", "again", "sweep")})
            got.append(picture(o))
            sim.log(label, got[-1][1])
        if not hard:
            return
        ref = sim.pristine("run", did)
        for step, (op, a, b) in enumerate(zip(did, got, ref)):
            if (a is None) != (b is None):
                raise RuntimeError("the programs differ at step %d" % step)
            if a is not None and a[1:] != b[1:]:
                what = "returns another result" if a[1] != b[1] else "leaves another generator state"
                raise Violation("residue", "step %d, %s %s: after failed calls (steps %s) it %s: %s; without them: %s" % (
                    step, name_of(op), json.dumps(op)[:300], sorted(set(x for x in hard if x <= step)), what, a[0], b[0]))
        sim.nontrivial = any(a is not None and s >= hard[0] for s, a in enumerate(got))

    def sweep(self, sim, m, op, label, around, s0):
        """Lets the call fail in many places, each time from the same state.  Returns how often it did."""
        fn, data, after = m.prepare(op)
        p = sim.profile(fn)
        n = 0
        random = op["t"] == "weights" or op["t"] == "fn" and op["c"]["random"]
        before = c08.state()
        for i, f in enumerate(op["sweep"]):
            f = sim.resolve(f, p)
            if f is None:
                continue
            op["sweep"][i] = f
            np.random.set_state(s0)
            o = sim.call(fn, _fault=f)
            sim.log("fault", f["kind"], f["n"], o.where, o.fired, o.ok, type(o.exc).__name__)
            what = "%s with %s at %s" % (label, "no failure" if not o.fired else f["kind"], o.where or f["n"])
            if not o.kept:
                raise Violation("residue", "%s leaves another sys.stdout behind" % what)
            if surroundings() != around:
                raise Violation("residue", "%s changes the process's settings: %s, before %s" % (what, surroundings(), around))
            if o.ok or not o.fired:
                self.normal(o, p, what)
                continue
            if not self.same_error(f, o, p):
                raise Violation("error-not-reported", "%s %s instead of raising the failure's error" % (what, o.describe()))
            if not random and c08.state() != before:
                raise Violation("residue", "%s changes the generator's state" % what)
            n += 1
            sim.stats["failures reported"] += 1
            sim.note(name_of(op), f["kind"], o.where or f["n"])
        np.random.set_state(s0)
        return n

    def normal(self, o, p, what):
        if o.ok != p.ok:
            raise Violation("failure-swallowed", "%s %s, without the failure it %s" % (what, o.describe(), p.describe()))
        if o.ok and not simmod.same(o.value, p.value):
            d = ""
            try:
                d = simmod.first_difference(o.value, p.value)
            except Exception:
                pass
            raise Violation("failure-swallowed", "%s %s, without the failure it %s (%s)" % (what, o.describe(), p.describe(), d))
        if not o.ok and type(o.exc) is not type(p.exc):
            raise Violation("error-not-reported", "%s %s, without the failure it %s" % (what, o.describe(), p.describe()))

    def same_error(self, f, o, p):
        if f["kind"] == "alloc":
            return isinstance(o.exc, MemoryError)
        return o.exc is o.injected


WORLD = World()
