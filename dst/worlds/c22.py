"""C22: calls made from inside a running call (signal handler, output stream) are as good as any."""
import json
import sys

from .. import conc, geom, hist, kernel, prog, runner, seams, sim as simmod
from ..kernel import Violation
from . import c10, c11, c13

LIB = c10.WORLD


class Party:
    """A list of calls that belong together: what the outer program does, or what one visitor does."""

    def __init__(self, ops):
        self.ops, self.got, self.want = ops, [None] * len(ops), None


class Stream(seams.SimStdout):
    """An output stream that calls back at its n-th operation."""

    def __init__(self):
        super().__init__()
        self.visits = {}

    def _op(self):
        n = self.ops
        super()._op()
        for go in self.visits.pop(n, ()):
            go()


class World:
    prop = "C22"
    runs = {"quick": 6000, "thorough": 120000}
    cap = {"quick": 80, "thorough": 800}
    rule = "a run is non-trivial when at least one visitor ran inside another call and everything was judged"
    measure = "distinct (outer call, place of the visit, visiting call) situations"
    real = ["magpie's function library", "all remappers and the view", "numpy", "scipy", "healpy"]
    stub = ["the signal handler (the simulator decides at which event of a call it runs)",
            "standard output (simulated stream that calls the library at any write or flush)", "interrupts",
            "the stream of uniform random numbers where a visitor and the visited both draw (constant)"]
    assumptions = ["handlers run between bytecodes of magpie's functions, not inside numpy or compiled routines",
                   "a visitor does not set up or clean the very object whose call it visits"]
    refs = {}
    shrinks = staticmethod(lambda plan: shrinks(plan))

    # -------------------------------------------------------------------------------------- plans
    def plan(self, rng, tier, index):
        p = self.plan_lib(rng) if rng.chance(.4) else self.plan_obj(rng)
        p["env"] = hist.gen_env(rng)
        p["stream"] = ["const", 0, rng.choice([.5, .25, .75, 0.])]
        return p

    def gen_visit(self, rng, n):
        v = {"at": rng.int(0, n - 1), "via": rng.weighted([("signal", 4), ("stdout", 1)]), "u": rng.u(), "u2": rng.u(),
             "mode": rng.weighted([("site", 5), ("uniform", 3), ("late", 1), ("early", 1)])}
        return v

    def plan_lib(self, rng):
        group = rng.choice([None, None, "coords", "grids", "pixel", "remap", "polar", "one_d", "src", "randoms"])
        if rng.chance(.05):
            rng.fixed = rng.choice([rng.int(100, 1000), rng.int(1000, 5000), 1024, 4096])
        base = LIB.gen(rng, group)
        outer = [base] + [LIB.gen(rng, group) for _ in range(rng.int(0, 1))]
        visits = []
        for _ in range(rng.int(1, 3)):
            v = self.gen_visit(rng, len(outer))
            op = json.loads(json.dumps(outer[v["at"]]))
            k = rng.weighted([("twin", 4), ("similar", 3), ("same", 1), ("new", 2)])
            op = c10.twin(rng, op) if k == "twin" else LIB.similar(rng, op) if k == "similar" else LIB.gen(rng, group) if k == "new" else op
            v["ops"] = [op]
            visits.append(v)
        p = {"lib": True, "setup": [], "outer": outer, "visits": visits}
        if rng.chance(.15):
            p["then"] = rng.choice(["interrupt", "alarm"])
        return p

    def plan_obj(self, rng):
        mc = (2, 5, 20)
        kind = rng.weighted(prog.KINDS)
        setup = prog.prologue(rng, "shared", kind, 3, mc)
        if rng.chance(.3):
            setup.append(c11.WORLD.use(rng, "shared", kind))
        outer = []
        own = rng.chance(.4)
        if own:             # the visited object is set up, weighted and asked
            k = kind if rng.chance(.7) else rng.weighted(prog.KINDS)
            outer += self.life(rng, "own", k, mc)
        for _ in range(rng.int(0 if own else 1, 2)):
            outer.append(c11.WORLD.use(rng, "shared", kind))
        if rng.chance(.15):
            outer.insert(0, {"t": "fn", "c": self.fn(rng)})
        for op in outer:    # a display gives the stream more chances to call
            if "verbose" in op and rng.chance(.4):
                op["verbose"] = True
        visits = []
        for i in range(rng.int(1, 3)):
            v = self.gen_visit(rng, len(outer))
            if outer[v["at"]]["t"] == "new":
                v["at"] = len(outer) - 1
            k = rng.weighted([("shared", 5), ("own", 3), ("fn", 1)])
            host = outer[v["at"]]
            if k == "shared":
                v["ops"] = [c11.WORLD.use(rng, "shared", kind) for _ in range(rng.int(1, 2))]
                if host["o" if "o" in host else "t"] == "shared" and rng.chance(.4):
                    v["ops"][0] = self.like(rng, host)
            elif k == "own":
                hk = next((x["kind"] for x in setup + outer if x["t"] == "new" and x["o"] == host.get("o")), kind)
                v["ops"] = self.life(rng, "guest%d" % i, hk if rng.chance(.7) else rng.weighted(prog.KINDS), mc)
            else:
                v["ops"] = [{"t": "fn", "c": self.fn(rng)}]
            visits.append(v)
        p = {"lib": False, "setup": setup, "outer": outer, "visits": visits}
        if rng.chance(.12):
            p["then"] = rng.choice(["interrupt", "alarm"])
        return p

    def fn(self, rng):
        from .. import catalog
        return catalog.gen(rng, False)

    def like(self, rng, op):
        """the same question, often about another map"""
        op = json.loads(json.dumps(op))
        return c10.twin(rng, op) if rng.chance(.7) else op

    def life(self, rng, o, k, mc):
        q = prog.prologue(rng, o, k, 3, mc)
        q.append(c11.WORLD.use(rng, o, k))
        if rng.chance(.4) and k != "pov":
            src = [x for x in q if x.get("role") == "src"][0]
            q.append(dict(geom.gen_target(rng, k, src, 3), role="tgt", t="setup", o=o))
            if k.startswith("mc."):
                q.append({"t": "weights", "o": o, "mc": 3, "verbose": rng.choice([True, False])})
            q.append(c11.WORLD.use(rng, o, k))
        return q

    # ---------------------------------------------------------------------------------- execution
    def draws(self, ops):
        return any(op.get("t") == "weights" or op.get("k") in ("reg", "sub") for op in ops)

    def item(self, plan, m, op):
        """(label, the call, judge of its own or None, what to do after) or None"""
        if plan["lib"]:
            label, fn, judge = LIB.bind(op, m.pool)
            return label, fn, judge, None
        if not m.possible(op):
            return None
        fn, data, after = m.prepare(op)
        return self.label(op), fn, None, after

    def label(self, op):
        return op["c"]["fn"] + json.dumps([op["c"]["a"], op["c"]["k"]])[:160] if op["t"] == "fn" else c11.label_of(op)

    def alone(self, sim, plan, m, ops):
        """what the calls return when nothing visits them (seen in a fork of the present state)"""
        def go():
            out = []
            for op in ops:
                it = self.item(plan, m, op)
                if it is None:
                    out.append(None)
                    continue
                o = sim.call(it[1], _sites=True)
                ids, table = [], {}
                for x in o.sites:
                    ids.append(table.setdefault((id(x[0]), x[1], x[2]), len(table)))
                o.sites = (ids, "".join(x[2] for x in o.sites))
                o.out = o.out.text()
                if not o.ok:
                    o.exc = type(o.exc)(*[a for a in o.exc.args if isinstance(a, (str, int))][:1]) \
                        if type(o.exc) in (ValueError, TypeError, IndexError, AssertionError, KeyError) else RuntimeError(repr(o.exc))
                if o.ok and it[3]:
                    it[3]()
                out.append(o)
            return out
        return simmod.fork_call(go)

    def visit(self, sim, plan, m, party, where):
        """runs the visitor's calls inside whatever is running"""
        me = kernel._get_ident()
        host = kernel.CTX.pop(me, None)
        out = sys.stdout
        try:
            for j, op in enumerate(party.ops):
                it = self.item(plan, m, op)
                if it is None:
                    continue
                o = party.got[j] = simmod.Outcome()
                o.value = o.exc = None
                o.ok, o.fired, o.kind = False, 0, None
                sys.stdout = o.out = seams.SimStdout()
                try:
                    o.value = it[1]()
                    o.ok = True
                except BaseException as e:
                    o.exc = e
                    e.__traceback__ = e.__context__ = None
                    if isinstance(e, kernel.NoProgress):
                        return
                if o.ok and it[3]:
                    it[3]()
        finally:
            sys.stdout = out
            if host is not None:
                kernel.CTX[me] = host
        party.where = where

    def place(self, sim, v, p):
        """event or output operation of the visited call at which the visitor comes"""
        if "n" in v or p is None:
            return v.get("n")
        kind = "interrupt" if v["via"] == "signal" else "stdout"
        f = sim.resolve({"kind": kind, "u": v["u"], "u2": v["u2"], "mode": v["mode"]}, p)
        if f is None and kind == "stdout":
            v["via"] = "signal"
            f = sim.resolve({"kind": "interrupt", "u": v["u"], "u2": v["u2"], "mode": v["mode"]}, p)
        if f is not None:
            v["n"] = f["n"]
        return v.get("n")

    def execute(self, plan, sim):
        m = prog.Machine()
        for op in plan["setup"]:
            if m.possible(op):
                fn, data, after = m.prepare(op)
                o = sim.call(fn)
                if not o.ok:
                    raise Violation("setup-fails", "%s: %s" % (c11.label_of(op), o.describe()))
                if after:
                    after()
        shared = set(m.ob)
        outer = Party(plan["outer"])
        guests = [Party(v["ops"]) for v in plan["visits"]]
        if sum(self.draws(x.ops) for x in [outer] + guests) > 1 and not plan["lib"]:
            seams.RANDOM.set(*plan["stream"])
        for x in [outer] + guests:
            x.want = self.alone(sim, plan, m, x.ops)
        for o in sorted(shared):
            if m.ob[o].kind != "pov":
                m.ob[o].src_shape()
        visited = 0
        for j, op in enumerate(outer.ops):
            it = self.item(plan, m, op)
            if it is None:
                continue
            signals, out, last = {}, Stream(), None
            for v, g in zip(plan["visits"], guests):
                if v["at"] != j:
                    continue
                n = self.place(sim, v, outer.want[j])
                if n is None:
                    continue

                def go(g=g, v=v, op=op):
                    sim.note("visit", v["via"], self.kind(plan, m, op), self.kind(plan, m, g.ops[-1]), v["n"])
                    self.visit(sim, plan, m, g, v)
                if v["via"] == "signal":
                    signals.setdefault(n, []).append(go)
                    last = n
                else:
                    out.visits.setdefault(n, []).append(go)
            at = [0]

            def probe(code, off, kind):
                if kind == "l":
                    return
                n = at[0]
                at[0] += 1
                for go in signals.pop(n, ()):
                    go()
            f = None
            if plan.get("then") and last is not None and op.get("t") in (None, "fn", "remap", "profile", "rotate", "mask", "transform", "reverse"):
                f = {"kind": plan["then"], "n": last}       # the handler raises once it has asked
            want = outer.want[j]
            try:
                o = outer.got[j] = sim.call(it[1], _probe=probe, _stdout=out, _fault=f)
            except Violation as e:
                raise Violation("stuck", "%s, visited by %s: %s" % (it[0], self.guests(plan, guests, j), e.msg))
            if o.ok and it[3]:
                it[3]()
            bad = self.judge(it, want, o, op)
            if bad:
                raise Violation("disturbed", "%s, while it is visited by %s: %s" % (it[0], self.guests(plan, guests, j), bad))
            for v, g in zip(plan["visits"], guests):
                if v["at"] != j or not any(x is not None for x in g.got):
                    continue
                visited += 1
                sim.stats["visits by %s" % ("a signal handler" if v["via"] == "signal" else "the output stream")] += 1
                self.judge_guest(plan, m, g, v, it[0])
            sim.log(it[0], o.ok, o.fired)
        # nothing stays behind
        for x, who in [(outer, "visited")] + [(g, "visitor") for g in guests]:
            for j, op in enumerate(x.ops):
                if x.got[j] is None or (not plan["lib"] and op["t"] in ("new", "setup", "weights", "clean", "povsetup")):
                    continue
                if not plan["lib"] and op.get("o") in m.ob and any(
                        y["t"] in ("setup", "povsetup", "clean") and y["o"] == op["o"] for y in x.ops[j + 1:]):
                    continue
                it = self.item(plan, m, op)
                if it is None:
                    continue
                o = sim.call(it[1])
                bad = self.judge(it, x.want[j], o)
                if bad:
                    raise Violation("residue", "%s of the %s, asked again afterwards: %s" % (it[0], who, bad))
        sim.nontrivial = visited > 0

    def guests(self, plan, guests, j):
        return "[%s]" % "; ".join(self.name(plan, op) for v, g in zip(plan["visits"], guests) if v["at"] == j for op in g.ops)[:400]

    def name(self, plan, op):
        return (op["c"]["fn"] if op["k"] == "fn" else json.dumps(op)[:80]) if plan["lib"] else self.label(op)[:120]

    def kind(self, plan, m, op):
        if plan["lib"]:
            return op["c"]["fn"] if op["k"] == "fn" else op["k"]
        return op["c"]["fn"] if op["t"] == "fn" else (op["t"], m.ob[op["o"]].kind if op["o"] in m.ob else op.get("kind"))

    def judge(self, it, want, o, shown=None):
        if it[2] is not None:
            return it[2](o)
        bad = conc.equals(want)(o)
        if not bad and o.ok and shown is not None:
            bad = display(want.out, o.out.text(), shown.get("t"))
        return bad

    def judge_guest(self, plan, m, g, v, host):
        for j, op in enumerate(g.ops):
            o, p = g.got[j], g.want[j]
            if o is not None and isinstance(o.exc, kernel.NoProgress):
                raise Violation("stuck", "%s, called by %s while %s runs, never ends: %s" % (
                    self.name(plan, op), "a signal handler" if v["via"] == "signal" else "the output stream", host, o.exc))
            if plan["lib"]:
                it = LIB.bind(op, m.pool)
                bad = self.judge(it, p, o, op)
            elif (o is None) != (p is None):
                bad = "it cannot be done"
            else:
                bad = None if o is None else self.judge((0, 0, None), p, o, op)
            if bad:
                raise Violation("disturbed", "%s, called by %s while %s runs: %s" % (
                    self.name(plan, op), "a signal handler" if v["via"] == "signal" else "the output stream", host, bad))


def display(alone, text, t):
    """None or how what a call displays differs from what it displays alone"""
    bad, n = c13.check_session(alone)
    if bad is None:
        bad, k = c13.check_session(text)
        # a profile that finds the mask made by a visitor has nothing to show
        if bad is None and (k == n or t == "profile" and k <= n):
            return None
    elif c13.PCT.findall(alone) == c13.PCT.findall(text):
        return None
    return "it displays %r, alone %r" % (text[:150], alone[:150])


def shrinks(plan):
    for i in range(len(plan["visits"])):
        if len(plan["visits"]) > 1:
            yield dict(plan, visits=plan["visits"][:i] + plan["visits"][i + 1:])
    for i in range(len(plan["outer"])):
        if len(plan["outer"]) > 1:
            vs = [dict(v, at=v["at"] - (v["at"] > i)) for v in plan["visits"] if v["at"] != i]
            if vs:
                yield dict(plan, outer=plan["outer"][:i] + plan["outer"][i + 1:], visits=vs)
    for i, v in enumerate(plan["visits"]):
        for j in range(len(v["ops"])):
            if len(v["ops"]) > 1:
                yield dict(plan, visits=plan["visits"][:i] + [dict(v, ops=v["ops"][:j] + v["ops"][j + 1:])] + plan["visits"][i + 1:])
    if plan.get("then"):
        yield {k: v for k, v in plan.items() if k != "then"}


WORLD = World()
