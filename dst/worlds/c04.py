"""C04: Monte-Carlo remappers never answer from an outdated geometry."""
import copy

import numpy as np

from .. import geom, hist, runner
from ..hist import must
from ..kernel import Violation

WHAT = ("remap", "wremap", "mask", "profile", "sprofile")


class World:
    prop = "C04"
    runs = {"quick": 3000, "thorough": 60000}
    cap = {"quick": 75, "thorough": 800}
    rule = ("a run is non-trivial when a remapper with weights is questioned after a setup, clean or another object's calls "
            "made since the weights were calculated")
    measure = "distinct (remapper, state of weights, what happened since, outcome) situations plus distinct fault sites"
    real = ["magpie.montecarlo (all four remappers)", "magpie.randoms", "magpie.coords", "magpie.polar", "magpie.utils",
            "numpy", "healpy"]
    stub = ["standard output", "signals (raised at chosen bytecode events)", "memory allocation failures",
            "uninitialised memory (simulated contents)", "clock"]
    assumptions = ["two setups describe the same grids when their arguments, with defaults filled in, are equal",
                   "after a setup that was cut short the remapper may refuse or answer for the old grids"]
    refs = {"fresh": hist.ref_fresh}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        size = 4 if tier == "quick" or rng.chance(.8) else 8
        kinds = [rng.choice(geom.MC)]
        while rng.chance(.4) and len(kinds) < 3:
            kinds.append(kinds[0] if rng.chance(.75) else rng.choice(geom.MC))
        ops, state = [], [{"src": None, "tgt": None, "old": []} for _ in kinds]
        shared = rng.chance(.3)         # several objects work with grids of the same shape

        def setup(o, role):
            st = state[o]
            prev = [p for p in st["old"] if p["role"] == role]
            if shared and rng.chance(.5):
                prev = [p for s, k in zip(state, kinds) if k == kinds[o] for p in s["old"] if p["role"] == role]
            if prev and rng.chance(.3):
                op = copy.deepcopy(rng.choice(prev))
                if rng.chance(.25):
                    op = hist.nudge(rng, op)
            else:
                g = geom.gen_source(rng, kinds[o], size, "all") if role == "src" else geom.gen_target(rng, kinds[o], st["src"], size, True)
                op = dict(g, role=role)
                if prev and rng.chance(.5):         # same shape, other place
                    base = prev[-1]
                    if base["m"] == op["m"]:
                        kw = dict(base["kw"])
                        names = sorted(n for n in g["kw"] if n not in ("numx", "numy", "numz", "numr", "nump", "nside",
                                                                      "x_grid", "y_grid", "num_alpha", "num_beta"))
                        for n in rng.sample(names, rng.int(1, 2)):
                            kw[n] = g["kw"][n]
                        from .c01 import valid
                        if valid(kinds[o], op["m"], kw) and kw.get("rmin", 1.) > (0. if op["m"].endswith("log") else -1.):
                            op["kw"] = kw
            op = dict(op, o=o, t="setup")
            op.pop("fault", None)
            state[o][role] = op
            state[o]["old"].append(copy.deepcopy(op))
            if rng.chance(.12):
                op["fault"] = hist.gen_fault(rng)
                op["ask"] = rng.chance(.7)
                op["drop"] = rng.chance(.4)
            ops.append(op)

        def weights(o):
            mcs = [2, 7, 20] if geom.family(kinds[o]) == "Cube2Shell" else [2, 5, 30, 100]
            op = {"o": o, "t": "weights", "mc": rng.choice(mcs), "seed": rng.seed() % 50 if shared else rng.seed(),
                  "verbose": rng.chance(.3)}
            if rng.chance(.15):
                op["fault"] = hist.gen_fault(rng, hist.FAULT_KINDS)
            ops.append(op)

        def ask(o):
            ops.append({"o": o, "t": "ask", "which": rng.sample(WHAT, rng.int(1, 5))})

        for o in range(len(kinds)):
            setup(o, "src")
            setup(o, "tgt")
            if rng.chance(.8):
                weights(o)
        for _ in range(rng.int(2, 8) if rng.chance(.985) else rng.int(25, 50)):
            o = rng.int(0, len(kinds) - 1)
            t = rng.weighted([("src", 3), ("tgt", 3), ("both", 1), ("weights", 3), ("ask", 3), ("bad", .6), ("clean", .5),
                              ("new", .3)])
            if t == "new":          # the object is dropped and another one takes its name
                ops.append({"o": o, "t": "new"})
                prev = state[o]["src"], state[o]["tgt"]
                setup(o, "src")
                setup(o, "tgt")
                if rng.chance(.5):
                    ops[-2:] = [dict(copy.deepcopy(p)) for p in prev]
                    state[o]["src"], state[o]["tgt"] = prev
                if rng.chance(.6):
                    weights(o)
            elif t in ("src", "tgt"):
                setup(o, t)
            elif t == "both":
                for r in rng.shuffle(["src", "tgt"]):
                    setup(o, r)
            elif t == "weights":
                weights(o)
            elif t == "bad":
                st = state[o]
                ops.append(dict(hist.rejected(rng, st["tgt"] if rng.chance(.6) else st["src"]), o=o, t="bad"))
            elif t == "clean":
                ops.append({"o": o, "t": "clean"})
                if rng.chance(.3):
                    ask(o)
                if rng.chance(.5):
                    ops.append(hist.gen_half(rng, state[o], o))
                setup(o, "src")
                setup(o, "tgt")
            if t == "ask" or rng.chance(.5):
                ask(o)
        for o in range(len(kinds)):
            ask(o)
        return {"env": hist.gen_env(rng), "kinds": kinds, "ops": ops, "probes": hist.probes(rng)}

    def execute(self, plan, sim):
        def new(k):
            ob = hist.Obj(k)
            ob.w = ob.wgeo = None       # the weight calculation that counts, and its grids
            ob.since = []
            ob.must_answer = False
            ob.torn = False
            return ob
        obs = [new(k) for k in plan["kinds"]]
        pr = plan["probes"]
        for step, op in enumerate(plan["ops"]):
            if op["o"] >= len(obs):
                continue
            if op["t"] == "new":
                k = obs[op["o"]].kind
                ob = obs[op["o"]] = None
                obs[op["o"]] = new(k)
                obs[op["o"]].since.append("new object")
                continue
            ob, t = obs[op["o"]], op["t"]
            if t == "setup":
                if not ob.possible(op):
                    continue
                f = op.get("fault")
                if f:
                    r, p, g = sim.faulty(lambda: geom.apply(ob.real, op), f)
                    op["fault"] = g
                    if not r.ok:
                        ob.must_answer = False
                        if op.get("ask") and ob.ready and ob.w is not None:
                            self.torn(sim, ob, pr, "step %d: after an interrupted %s.%s" % (step, ob.kind, op["m"]))
                        if op.get("drop") and (ob.src if op["role"] == "src" else ob.tgt) is not None:
                            ob.since.append("failed " + op["role"])
                            continue
                        r = sim.call(lambda: geom.apply(ob.real, op))
                else:
                    r = sim.call(lambda: geom.apply(ob.real, op))
                must(r.ok, "setup-fails", "step %d: %s %s %s" % (step, ob.kind, op["m"], r.describe()))
                ob.set(op)
                ob.must_answer = False
                ob.since.append(op["role"])
            elif t == "clean":
                must(sim.call(ob.real.clean).ok, "clean-fails", "")
                if ob.ready:
                    for name, fn in self.cleaned(ob, pr):
                        r = sim.call(fn)
                        must(not r.ok, "answers-after-clean", "step %d: %s %s answers after clean()" % (step, ob.kind, name))
                ob.unset()
                ob.w = ob.wgeo = None
                ob.since = ["clean"]
                ob.must_answer = False
            elif t == "half":
                hist.do_half(sim, ob, op, "step %d" % step)
            elif t == "bad":
                if not ob.ready:
                    continue
                if not hist.do_rejected(sim, ob, op):
                    return
                ob.must_answer = False
                ob.since.append("rejected")
            elif not ob.ready:
                continue
            elif t == "weights":
                hist.seed_all(sim, op["seed"])
                fn = hist.weights_fn(ob, op)
                if op.get("fault"):
                    r, p, f = sim.faulty(fn, op["fault"])
                    op["fault"] = f
                    if not r.ok:
                        ob.since.append("failed weights")
                        continue
                else:
                    r = sim.call(fn)
                must(r.ok, "weights-fail", "step %d: %s.get_weights %s" % (step, ob.kind, r.describe()))
                ob.w = dict(op, src=hist.clean_op(ob.src), tgt=hist.clean_op(ob.tgt))
                ob.wgeo = ob.geo()
                ob.since = []
                ob.must_answer = True
                for other in obs:
                    if other is not ob and other.w is not None:
                        other.since.append("other")
            else:
                self.ask(sim, ob, pr, op["which"], "step %d" % step)

    def cleaned(self, ob, pr):
        f = hist.shaped(pr["f"][0], ob.src_shape())
        yield "remap", lambda: ob.real.remap(f, verbose=False)

    def reference(self, sim, ob, pr, which):
        w = ob.w
        return sim.pristine("fresh", ob.kind, w["src"], w["tgt"], w["mc"], w["seed"], None, pr, which)

    def ask(self, sim, ob, pr, which, msg):
        got = hist.answers(sim, ob, pr, which)
        state = "none" if ob.w is None else ("current" if ob.wgeo == ob.geo() else "outdated")
        if ob.since:
            sim.nontrivial = True
        sim.note(ob.kind, state, tuple(ob.since[-3:]), tuple(ok for _, ok, _ in got))
        sim.log("ask", ob.kind, state, [ok for _, ok, _ in got])
        sim.stats["asked with %s weights" % state] += 1
        bound = self.bound(ob, got)
        if state != "current":
            for n, v in bound:
                raise Violation("outdated-answer" if ob.w is not None else "answers-without-weights",
                                "%s: %s %s answers although its weights are %s (since the weights: %s): %r" % (
                                    msg, ob.kind, n, state, ob.since, v))
            return
        ref = self.reference(sim, ob, pr, which)
        if ob.must_answer:
            hist.compare_answers(got, ref, "wrong-answer", "%s: %s right after its weights were calculated" % (msg, ob.kind))
            return
        for (n, ok, v), r in zip(got, ref):
            if ok:
                hist.compare_answers([(n, ok, v)], [r], "wrong-answer", "%s: %s since the weights: %s" % (msg, ob.kind, ob.since))

    def bound(self, ob, got):
        """answers that need weights"""
        sky = geom.family(ob.kind) == "Heal2Ring"
        return [(n, v) for n, ok, v in got if ok and ("remap" in n or n == "mask" or not sky)]

    def torn(self, sim, ob, pr, msg):
        try:
            got = hist.answers(sim, ob, pr, ("remap", "wremap"))
        except Violation:
            raise
        if not any(ok for _, ok, _ in got):
            return
        if ob.wgeo != ob.geo():
            for n, v in self.bound(ob, got):
                raise Violation("outdated-answer", "%s: %s answers with outdated weights" % (msg, n))
            return
        ref = self.reference(sim, ob, pr, ("remap", "wremap"))
        for (n, ok, v), r in zip(got, ref):
            if ok:
                hist.compare_answers([(n, ok, v)], [r], "wrong-answer", msg)


WORLD = World()
