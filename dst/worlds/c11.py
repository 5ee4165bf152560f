"""C11: a configured remapper can be shared by threads; separate remappers never affect each other."""
import json

from .. import conc, geom, hist, prog, runner, sim as simmod
from ..kernel import Violation


def label_of(op):
    return "%s.%s" % (op["o"], op["t"]) if op["t"] != "setup" else "%s.%s(%s)" % (op["o"], op["m"], json.dumps(op["kw"])[:120])


class World:
    prop = "C11"
    runs = {"quick": 3600, "thorough": 90000}
    cap = {"quick": 80, "thorough": 800}
    rule = "a run is non-trivial when threads were switched inside calls of a shared or a separate remapper at least twice"
    measure = "distinct interleavings (sequence of switches by thread and code position)"
    real = ["magpie.densegrid", "magpie.montecarlo", "magpie.polar", "numpy", "healpy", "Python threads (run one at a time)"]
    stub = ["the thread scheduler: the simulator decides at every line, call, return and loop of magpie's code who runs",
            "interrupts in one of the threads", "standard output",
            "the stream of uniform random numbers where several threads draw at once (constant, so the order does not matter)"]
    assumptions = ["threads switch between bytecodes of magpie's functions, not inside numpy or healpy",
                   "a shared object is only used, not set up again, while it is shared"]
    refs = {}
    shrinks = staticmethod(lambda plan: shrinks(plan))

    def plan(self, rng, tier, index):
        T = rng.weighted([(2, 6), (3, 3), (4, 1)])
        shared = []
        n = rng.weighted([(1, 8), (2, 2)])
        mc = (2, 5, 20)
        for i in range(n):
            k = rng.weighted(prog.KINDS)
            shared += prog.prologue(rng, "sharedB"[6 * i:6 * i + 6] or "shared%d" % i, k, 3, mc)
        names = {}
        for op in shared:
            if op["t"] == "new":
                names[op["o"]] = op["kind"]
        uses = []
        for o, k in sorted(names.items()):
            for _ in range(rng.int(0, 2)):      # used before it is shared
                if rng.chance(.3):
                    uses.append(self.use(rng, o, k))
        threads = []
        for t in range(T):
            q = []
            sep = rng.chance(.3)
            if sep:
                k = rng.weighted([(x, 1) for x in names.values()] * 3 + prog.KINDS[:0] + [(rng.weighted(prog.KINDS), 2)])
                o = "own%d" % t
                q += prog.prologue(rng, o, k, 3, mc)
                q.append(self.use(rng, o, k))
                if rng.chance(.3) and k != "pov":
                    src = [x for x in q if x.get("role") == "src"][0]
                    q.append(dict(geom.gen_target(rng, k, src, 3), role="tgt", t="setup", o=o))
                    if k.startswith("mc."):
                        q.append({"t": "weights", "o": o, "mc": 3, "verbose": False})
                    q.append(self.use(rng, o, k))
            if not sep or rng.chance(.4):
                for _ in range(rng.int(1, 3)):
                    o = rng.choice(sorted(names))
                    q.insert(rng.int(0, len(q)) if not sep else len(q), self.use(rng, o, names[o]))
            for op in q:
                if op["t"] in ("remap", "profile", "mask", "transform", "reverse", "rotate") and rng.chance(.05):
                    op["fault"] = hist.gen_fault(rng, conc.KINDS)
            threads.append(q)
        if rng.chance(.5):      # two threads ask the same
            i, j = rng.int(0, T - 1), rng.int(0, T - 1)
            ops = [x for x in threads[i] if x.get("o") in names]
            if i != j and ops:
                threads[j].append(dict(json.loads(json.dumps(rng.choice(ops))), fault=None))
        env = hist.gen_env(rng)
        return {"env": env, "setup": shared + uses, "threads": threads, "slices": conc.gen_slices(rng, T),
                "stream": ["const", 0, rng.choice([.5, .25, .75, 0.])]}

    def use(self, rng, o, k):
        while True:
            op = prog.gen_use(rng, o, k, (3,))
            if op["t"] != "weights":
                return op

    def execute(self, plan, sim):
        m = prog.Machine()
        for op in plan["setup"]:
            if m.possible(op):
                fn, data, after = m.prepare(op)
                o = sim.call(fn)
                if not o.ok:
                    raise Violation("setup-fails", "%s: %s" % (label_of(op), o.describe()))
                if after:
                    after()
        shared = set(m.ob)
        # several threads that draw: a stream whose order does not matter
        from .. import seams
        drawing = sum(any(op["t"] == "weights" for op in q) for q in plan["threads"])
        if drawing > 1:
            seams.RANDOM.set(*plan["stream"])
        expected = []
        for q in plan["threads"]:
            expected.append(sim_alone(sim, m, q))
            for op, p in zip(q, expected[-1]):
                if op.get("fault") and p is not None:
                    op["fault"] = sim.resolve(op["fault"], p)
        got = [[None] * len(q) for q in plan["threads"]]

        def body(i):
            q = plan["threads"][i]

            def go(h):
                for j, op in enumerate(q):
                    if not m.possible(op):
                        continue
                    fn, data, after = m.prepare(op)
                    f = op.get("fault")
                    o = got[i][j] = h.call(fn, _fault=f if f and "n" in f else None)
                    if o.ok and after:
                        after()
            return go
        for o in sorted(shared):
            if m.ob[o].kind != "pov":
                m.ob[o].src_shape()
        s = sim.threads([body(i) for i in range(len(plan["threads"]))], plan["slices"])
        for i, q in enumerate(plan["threads"]):
            for j, op in enumerate(q):
                o, p = got[i][j], expected[i][j]
                if (o is None) != (p is None):
                    raise Violation("disturbed", "thread %d cannot do %s" % (i, label_of(op)))
                if o is None:
                    continue
                bad = conc.equals(p)(o)
                if bad:
                    raise Violation("disturbed", "thread %d of %d, %s of a %s %s, while the others ran [%s]: %s" % (
                        i, len(plan["threads"]), label_of(op), "shared" if op["o"] in shared else "separate",
                        m.ob[op["o"]].kind, "; ".join(label_of(x) for k, y in enumerate(plan["threads"]) if k != i for x in y)[:300],
                        bad))
        # afterwards the objects still answer the same
        for i, q in enumerate(plan["threads"]):
            for j, op in enumerate(q):
                if op["o"] in shared and got[i][j] is not None and m.possible(op):
                    o = sim.call(m.prepare(op)[0])
                    bad = conc.equals(expected[i][j])(o)
                    if bad:
                        raise Violation("residue", "%s of the shared %s after the threads ended: %s" % (
                            label_of(op), m.ob[op["o"]].kind, bad))
        sim.nontrivial = s.preempted >= 2
        sim.note("kinds", sorted(o.kind for o in m.ob.values()))


def sim_alone(sim, m, q):
    """What the calls of one thread return when nothing else runs (seen in a fork of the present state)."""
    def go():
        out = []
        for op in q:
            if not m.possible(op):
                out.append(None)
                continue
            fn, data, after = m.prepare(op)
            o = sim.call(fn, _sites=True)
            ids, table = [], {}
            for x in o.sites:
                ids.append(table.setdefault((id(x[0]), x[1], x[2]), len(table)))
            o.sites = (ids, "".join(x[2] for x in o.sites))
            o.out = None
            if o.ok and after:
                after()
            out.append(o)
        return out
    return simmod.fork_call(go)


def shrinks(plan):
    yield from runner.generic_shrinks(plan)
    s = plan["setup"]
    for i in range(len(s)):
        yield dict(plan, setup=s[:i] + s[i + 1:])


WORLD = World()
