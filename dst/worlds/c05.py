"""C05: random points always lie in the requested region, for every legal stream of uniform draws."""
import numpy as np

from .. import hist, rand, runner, seams
from ..kernel import Violation

KINDS = (("interrupt", 5), ("memory", 1), ("alloc", 2), ("alarm", 1))


class World:
    prop = "C05"
    runs = {"quick": 9000, "thorough": 400000}
    cap = {"quick": 80, "thorough": 800}
    rule = ("a run is non-trivial when points were drawn from an adversarial stream (extreme, repeated or edge draws) and "
            "judged")
    measure = "distinct (generator, stream, region class, size class) situations plus distinct fault sites"
    real = ["magpie.randoms", "magpie.coords.healpix", "magpie.pixel", "scipy.interpolate", "numpy"]
    stub = ["the stream of uniform random numbers (half of the draws)", "uninitialised memory (simulated contents)",
            "interrupts and failed allocations"]
    assumptions = ["HEALPix pixels are judged with healpy within 1e-7 rad", "region bounds to within a few ulps"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        ops = []
        for _ in range(rng.int(2, 8)):
            op = {"reg": rand.gen(rng), "size": rng.weighted([(rng.int(1, 40), 6), (0, 1), (1, 1), (rng.int(40, 400), 1), (rng.int(400, 6000), .1)]),
                  "stream": hist.gen_stream(rng)}
            if rng.chance(.2):
                op["stream"] = ["edges", rng.seed(), 0.]
            if rng.chance(.08):
                op["fault"] = hist.gen_fault(rng, KINDS)
            ops.append(op)
            if rng.chance(.15):
                ops.append(dict(op, fault=None, stream=hist.gen_stream(rng)))
        return {"env": hist.gen_env(rng), "ops": ops}

    def execute(self, plan, sim):
        for step, op in enumerate(plan["ops"]):
            reg, size = op["reg"], op["size"]
            seams.RANDOM.set(*op["stream"])
            fn = rand.call(reg, size)
            if op.get("fault"):
                o, p, f = sim.faulty(fn, op["fault"])
                op["fault"] = f
                if not o.ok:
                    o = sim.call(fn)
            else:
                o = sim.call(fn)
            name = "step %d: randoms_%s(%d, %s) on stream %s" % (step, reg["g"], size, reg["kw"], op["stream"][0])
            if not o.ok:
                raise Violation("call-fails", "%s: %s" % (name, o.describe()))
            try:
                cols = rand.columns(reg, o.value)
            except Exception as e:
                raise Violation("malformed", "%s returned %s (%r)" % (name, o.describe(), e))
            bad = rand.outside(reg, cols, size)
            if bad:
                raise Violation("outside", "%s: %s" % (name, bad))
            if op["stream"][0] != "real" and size:
                sim.nontrivial = True
            sim.note(reg["g"], op["stream"][0], sorted(k for k in reg["kw"]), min(size, 2), reg["kw"].get("nside"),
                     size > 40)
            sim.stats["points"] += size
            sim.stats["stream " + op["stream"][0]] += 1
            sim.log(step, reg["g"], float(sum(c.sum() for c in cols)) if size else 0)


WORLD = World()
