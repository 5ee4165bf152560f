"""C10: concurrent calls of the function library do not affect each other."""
import json

from .. import catalog, conc, hist, rand, runner, sim as simmod
from ..kernel import Violation
from . import c07

SUB = c07.WORLD


def twin(rng, op):
    """the same call with arrays of the same shapes and other values"""
    def go(x):
        if isinstance(x, dict):
            return {k: rng.seed() if k == "seed" else go(v) for k, v in x.items()}
        if isinstance(x, list):
            return [go(v) for v in x]
        return x
    return go(op)


class World:
    prop = "C10"
    runs = {"quick": 9000, "thorough": 120000}
    cap = {"quick": 80, "thorough": 800}
    rule = "a run is non-trivial when threads were switched inside calls at least twice and every result was judged"
    measure = "distinct interleavings (sequence of switches by thread and code position)"
    real = ["magpie's function library", "numpy", "scipy", "healpy", "Python threads (run one at a time)"]
    stub = ["the thread scheduler: the simulator decides at every line, call, return and loop of magpie's code who runs",
            "interrupts in one of the threads", "standard output"]
    assumptions = ["threads switch between bytecodes of magpie's functions, not inside numpy or the compiled routines "
                   "(these hold the interpreter lock)"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        T = rng.weighted([(2, 6), (3, 3), (4, 1)])
        base = []
        group = rng.choice([None, None, "coords", "grids", "pixel", "remap", "polar", "one_d", "src", "randoms"])
        storm = rng.chance(.35)         # one function, called by all threads with their own values
        if rng.chance(.06):             # the same with many points
            storm, group = True, rng.choice(["coords", "coords", "coords", "pixel", "grids"])
            rng.fixed = rng.choice([rng.int(100, 1000), rng.int(1000, 5000), 1024, 4096])
        for _ in range(1 if storm else rng.int(1, 3)):
            base.append(self.gen(rng, group))
        threads = []
        for t in range(T):
            q = []
            for _ in range(rng.int(1, 2)):
                k = "same" if storm else rng.weighted([("same", 4), ("similar", 3), ("new", 3)])
                op = json.loads(json.dumps(rng.choice(base)))
                if k == "same" and rng.chance(.8 if storm else .5):
                    op = twin(rng, op)
                if k == "similar":
                    op = self.similar(rng, op)
                elif k == "new":
                    op = self.gen(rng, group)
                if rng.chance(.08):
                    op["fault"] = hist.gen_fault(rng, conc.KINDS)
                q.append(op)
            threads.append(q)
        return {"env": hist.gen_env(rng), "threads": threads, "slices": conc.gen_slices(rng, T)}

    def gen(self, rng, group):
        k = rng.weighted([("fn", 8 if group != "randoms" else 2), ("reg", 1.5), ("sub", 1)])
        if k == "fn":
            return {"k": "fn", "c": catalog.gen(rng, False, groups=None if group is None else (group,))}
        if k == "reg":
            return {"k": "reg", "reg": rand.gen(rng), "size": rng.int(0, 30)}
        while True:
            p = SUB.plan(rng, "quick", 1)
            if p["ops"]:
                return {"k": "sub", "op": dict(p["ops"][0], fault=None)}

    def similar(self, rng, op):
        """the same function with other arguments"""
        if op["k"] == "fn":
            for _ in range(60):
                c = catalog.gen(rng, False, groups=(op["c"]["g"],))
                if c["fn"] == op["c"]["fn"]:
                    return {"k": "fn", "c": c}
        elif op["k"] == "reg":
            return {"k": "reg", "reg": rand.gen(rng, kinds=[(op["reg"]["g"], 1)]), "size": rng.int(0, 30)}
        return op

    def bind(self, op, pool):
        """(label, function, judge or None)"""
        if op["k"] == "fn":
            return op["c"]["fn"] + json.dumps([op["c"]["a"], op["c"]["k"]])[:200], catalog.build(op["c"], pool)[0], None
        if op["k"] == "reg":
            reg, size = op["reg"], op["size"]

            def judge(o):
                if not o.ok:
                    return None if o.fired else o.describe()
                try:
                    cols = rand.columns(reg, o.value)
                except Exception as e:
                    return "%s (%r)" % (o.describe(), e)
                return rand.outside(reg, cols, size)
            return "randoms_%s(%d, %s)" % (reg["g"], size, reg["kw"]), rand.call(reg, size), judge
        fn, data = SUB.args(op["op"])

        def judge(o):
            if not o.ok:
                return None if o.fired else o.describe()
            bad = SUB.law(op["op"], data, o.value)
            return bad and "%s: %s" % (o.describe(), bad)
        return "%s(%s)" % (op["op"]["fn"], simmod.brief(data, 100)), fn, judge

    def execute(self, plan, sim):
        pool, calls, seen = {}, [], {}
        for ops in plan["threads"]:
            mine = []
            for op in ops:
                label, fn, judge = self.bind(op, pool)
                f = op.get("fault")
                key = json.dumps({k: v for k, v in op.items() if k != "fault"}, sort_keys=True)
                if judge is None or f and "n" not in f:
                    if key not in seen:
                        seen[key] = sim.profile(fn)
                    p = seen[key]
                    if judge is None:
                        judge = conc.equals(p)
                    if f:
                        f = sim.resolve(f, p)
                        op["fault"] = f
                mine.append((label, fn, f, judge))
            calls.append(mine)
        s = conc.run(sim, calls, plan["slices"], "")
        # nothing stays behind
        for mine in calls:
            label, fn, f, judge = mine[-1]
            o = sim.call(fn)
            bad = judge(o)
            if bad:
                raise Violation("residue", "%s, after the threads ended: %s" % (label, bad))
        sim.nontrivial = s.preempted >= 2


WORLD = World()
