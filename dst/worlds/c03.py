"""C03: Monte-Carlo weight calculation is all-or-nothing under interrupts and failures."""
import copy

import numpy as np

from .. import geom, hist, runner
from ..hist import must
from ..kernel import Violation
from ..sim import fork_call

KINDS = (("interrupt", 6), ("memory", 2), ("alloc", 2), ("alarm", 1), ("stdout", 4))


class World:
    prop = "C03"
    runs = {"quick": 1400, "thorough": 60000}
    cap = {"quick": 75, "thorough": 800}
    rule = ("a run is non-trivial when at least one weight calculation was cut short by an injected fault and the remapper "
            "was questioned before and afterwards")
    measure = "distinct (remapper, weights before, fault kind, fault site) situations plus distinct fault sites"
    real = ["magpie.montecarlo (all four remappers)", "magpie.randoms", "magpie.coords", "magpie.polar", "magpie.utils",
            "numpy", "healpy"]
    stub = ["standard output", "signals (raised at chosen bytecode events)", "memory allocation failures",
            "uninitialised memory (simulated contents)", "clock"]
    assumptions = ["faults strike between the bytecode events of magpie's own code, inside numpy's data allocations, or in "
                   "writes and flushes of the output stream",
                   "a second fault during the clean-up of the first is not injected"]
    refs = {"fresh": hist.ref_fresh}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        size = 4 if tier == "quick" or rng.chance(.8) else 8
        kind = rng.choice(geom.MC)
        src = dict(geom.gen_source(rng, kind, size), role="src")
        tgt = dict(geom.gen_target(rng, kind, src, size), role="tgt")
        ops = [dict(src, t="setup"), dict(tgt, t="setup")]
        if geom.family(kind) == "Cube2Shell":
            mcs = [2, 7, 20, 40]
        else:
            mcs = [2, 5, 30, 100, 300]
        n = rng.int(1, 4)
        if rng.chance(.7):
            ops.append(self.weights(rng, mcs))
        for i in range(n):
            k = rng.weighted([("fault", 8), ("weights", 2), ("src", .7), ("tgt", .7), ("ask", 1), ("clean", .3)])
            if k == "fault":
                for _ in range(rng.weighted([(1, 6), (2, 2), (3, 1)])):
                    op = self.weights(rng, mcs)
                    op["fault"] = hist.gen_fault(rng, KINDS)
                    if op["fault"]["kind"] == "stdout":
                        op["verbose"] = True
                    ops.append(op)
                if rng.chance(.6):
                    again = copy.deepcopy(ops[-1])
                    again.pop("fault")
                    ops.append(again)
            elif k == "weights":
                ops.append(self.weights(rng, mcs))
            elif k == "src":
                src = dict(geom.gen_source(rng, kind, size), role="src")
                ops.append(dict(src, t="setup"))
            elif k == "tgt":
                tgt = dict(geom.gen_target(rng, kind, src, size), role="tgt")
                ops.append(dict(tgt, t="setup"))
            elif k == "clean":
                ops.append({"t": "clean"})
                ops += [dict(src, t="setup"), dict(tgt, t="setup")]
            else:
                ops.append({"t": "ask"})
        if rng.chance(.5):
            ops.append(self.weights(rng, mcs))
        return {"env": hist.gen_env(rng), "kind": kind, "ops": ops, "probes": hist.probes(rng)}

    def weights(self, rng, mcs):
        return {"t": "weights", "mc": rng.choice(mcs), "seed": rng.seed(), "verbose": rng.chance(.8),
                "before": rng.choice(["fork", "fork", "here", "none"]), "stream": hist.gen_stream(rng) if rng.chance(.1) else None}

    def expected(self, sim, ob, w, pr):
        if w is None:
            return None
        return sim.pristine("fresh", ob.kind, hist.clean_op(ob.src), hist.clean_op(ob.tgt), w["mc"], w["seed"],
                            w.get("stream"), pr, ("remap", "wremap", "mask", "profile", "sprofile"))

    def execute(self, plan, sim):
        ob = hist.Obj(plan["kind"])
        pr = plan["probes"]
        weights = None
        ref = None

        def ask():
            return hist.answers(sim, ob, pr)
        for step, op in enumerate(plan["ops"]):
            t = op["t"]
            if t == "setup":
                r = sim.call(lambda: geom.apply(ob.real, op))
                must(r.ok, "setup-fails", r.describe())
                ob.set(op)
                weights = ref = None
            elif t == "clean":
                must(sim.call(ob.real.clean).ok, "clean-fails", "")
                ob.unset()
                weights = ref = None
            elif not ob.ready:
                continue
            elif t == "ask":
                self.settled(sim, ask(), weights, ref, "step %d" % step)
            elif not op.get("fault"):
                hist.seed_all(sim, op["seed"], op.get("stream"))
                r = sim.call(hist.weights_fn(ob, op))
                must(r.ok, "weights-fail", "step %d: %s.get_weights %s" % (step, ob.kind, r.describe()))
                weights = op
                ref = self.expected(sim, ob, op, pr)
                sim.stats["undisturbed calculations"] += 1
                if op["before"] == "here":
                    self.settled(sim, ask(), weights, ref, "step %d, after an undisturbed calculation" % step)
                else:
                    self.settled(sim, fork_call(ask), weights, ref, "step %d, after an undisturbed calculation" % step)
            else:
                before = None
                if op["before"] == "here":
                    before = ask()
                elif op["before"] == "fork":
                    before = fork_call(ask)
                hist.seed_all(sim, op["seed"], op.get("stream"))
                r, p, f = sim.faulty(hist.weights_fn(ob, op), op["fault"])
                op["fault"] = f
                where = "step %d: %s.get_weights hit by %s at %s" % (step, ob.kind, f and f["kind"], r.where or (f and f.get("n")))
                if r.ok:
                    if r.fired:
                        sim.stats["faults absorbed"] += 1
                    weights = op
                    ref = self.expected(sim, ob, op, pr)
                    self.settled(sim, ask(), weights, ref, where + " (call returned normally)")
                    continue
                sim.nontrivial = True
                after = ask()
                sim.note("weights", ob.kind, weights is not None, f["kind"], r.where, before is not None)
                if before is not None:
                    hist.compare_answers(after, before, "answers-changed", where + ", afterwards")
                self.settled(sim, after, weights, ref, where + ", afterwards")
                sim.stats["failures survived"] += 1
        if ob.ready and weights is not None:
            self.settled(sim, ask(), weights, ref, "at the end")

    def settled(self, sim, got, weights, ref, msg):
        """answers given with complete weights, or refusals without any"""
        if weights is None:
            for n, ok, v in got:
                if ok and "remap" in n:
                    raise Violation("answers-without-weights", "%s: %s answers although no weights were ever completed" % (msg, n))
        else:
            hist.compare_answers(got, ref, "wrong-answers", msg)


WORLD = World()
