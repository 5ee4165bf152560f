"""C08: seeded programs repeat exactly in every environment, and nothing else disturbs the generator."""
import copy
import hashlib
import json
import os
import subprocess
import sys
import threading

import numpy as np

from .. import catalog, hist, prog, runner, seams, sim as simmod
from ..hist import must
from ..kernel import Violation

KINDS = (("interrupt", 5), ("memory", 1), ("alloc", 2), ("stdout", 1))


def state():
    s = np.random.get_state()
    return hashlib.blake2b(repr((s[0], s[2], s[3], s[4])).encode() + s[1].tobytes(), digest_size=8).hexdigest()


def settings():
    return json.dumps([np.geterr(), repr(np.geterrcall()), np.get_printoptions()], default=repr, sort_keys=True)


def run_program(sim, ops, noise, verbose="as-is", where="here", laws=False):
    """[(short picture, result digest, generator state)] per op; None for an op that was not possible"""
    m = prog.Machine()
    out = []
    for i, op in enumerate(ops):
        for nz in noise:
            if nz["before"] == i:
                one(sim, prog.Machine(), nz["ops"], nz)
        if not m.possible(op):
            out.append(None)
            continue
        if verbose != "as-is" and "verbose" in op:
            op = dict(op, verbose=verbose)
        fn, data, after = m.prepare(op)
        s0, c0 = state(), settings()
        if where == "thread":
            box = []
            t = threading.Thread(target=lambda: box.append(sim.call(fn)))
            t.start()
            t.join()
            o = box[0]
        else:
            o = sim.call(fn)
        if o.ok and after:
            after()
        s1 = state()
        if laws:
            judge(op, o, s0, s1, c0)
        out.append((o.describe()[:160], simmod.digest(o.value) if o.ok else type(o.exc).__name__, s1))
    return out


def name_of(op):
    return op["c"]["fn"] if op["t"] == "fn" else op["t"]


def samples(op):
    """whether the call needs randomness, and whether it surely draws some"""
    if op["t"] == "weights":
        return True, True
    if op["t"] == "fn" and op["c"]["random"]:
        c = op["c"]
        n = c["a"][0] if c["fn"].startswith("randoms.randoms_") and isinstance(c["a"][0], int) else 1
        return True, n > 0
    return op["t"] == "seed", False


def judge(op, o, s0, s1, c0):
    rand, draws = samples(op)
    what = "%s (%s)" % (name_of(op), json.dumps(op)[:300])
    if settings() != c0:
        raise Violation("settings-changed", "%s changes numpy's settings: %s, before %s" % (what, settings(), c0))
    if not rand and s1 != s0:
        raise Violation("generator-disturbed", "%s needs no randomness but changes the generator's state" % what)
    if o.ok and draws and s1 == s0:
        raise Violation("generator-unused", "%s samples without advancing the seeded generator" % what)


def one(sim, m, ops, nz):
    """unrelated deterministic calls"""
    for op in ops:
        if not m.possible(op):
            continue
        fn, data, after = m.prepare(op)
        s0, c0 = state(), settings()
        if nz.get("fault") and op is ops[-1]:
            o, p, f = sim.faulty(fn, nz["fault"])
            nz["fault"] = f
        else:
            o = sim.call(fn)
        if o.ok and after:
            after()
        judge(op, o, s0, state(), c0)


def ref_run(sim, ops, noise, env, verbose, where):
    s = simmod.Sim(env, None)
    s.begin()
    if env.get("stdout"):
        old = s.call

        def call(fn, *a, **k):
            st = seams.SimStdout(keep=False)
            if env["stdout"] == "tty":
                st.isatty = lambda: True
            return old(fn, *a, _stdout=st, **k)
        s.call = call
    return run_program(s, ops, noise, verbose, where)


class World:
    prop = "C08"
    runs = {"quick": 2600, "thorough": 60000}
    cap = {"quick": 80, "thorough": 800}
    rule = ("a run is non-trivial when a program that samples was compared across at least two environments")
    measure = "distinct (call, environment) pairs plus distinct fault sites"
    real = ["all of magpie's library functions and remappers", "numpy (its generator included)", "scipy", "healpy"]
    stub = ["clock", "standard output", "entropy source", "uninitialised memory (simulated contents)", "interrupts"]
    assumptions = ["one machine and one build of numpy", "BLAS and OpenMP run one thread"]
    refs = {"run": ref_run}
    shrinks = staticmethod(lambda plan: shrinks(plan))

    def plan(self, rng, tier, index):
        ops = []
        n = rng.int(3, 9)
        if rng.chance(.6):
            ops = prog.gen_program(rng, n, fn_share=.5)
        else:
            ops = [{"t": "fn", "c": catalog.gen(rng, rng.choice([True, True, None]))} for _ in range(n)]
        if rng.chance(.02):         # a long program
            ops += [ops[rng.int(0, len(ops) - 1)] for _ in range(rng.int(40, 150))] if not any(
                op["t"] == "new" for op in ops) else [op for op in ops if op["t"] != "new"] * 8
        if rng.chance(.2):
            ops.insert(rng.int(0, len(ops)), {"t": "seed", "s": rng.seed()})
        vs = []
        base = hist.gen_env(rng)
        base["entropy"] = rng.seed()
        for _ in range(rng.int(2, 3)):
            env = hist.gen_env(rng)
            env["entropy"] = rng.seed()
            env["seed"] = base["seed"]
            if rng.chance(.3):
                env["stdout"] = rng.choice(["tty", "discard"])
            noise = []
            if rng.chance(.5):
                for _ in range(rng.int(1, 3)):
                    k = rng.weighted([("fn", 6), ("dense", 2)])
                    if k == "fn" and rng.chance(.04):       # a great many of them
                        q = [{"t": "fn", "c": catalog.gen(rng, False)} for _ in range(rng.int(1, 3))] * rng.int(100, 300)
                    elif k == "fn":
                        q = [{"t": "fn", "c": catalog.gen(rng, False)}]
                    else:
                        kind = rng.choice([x for x, _ in prog.KINDS if not x.startswith("mc.")])
                        q = prog.prologue(rng, "z", kind) + [prog.gen_use(rng, "z", kind, (2,))]
                    nz = {"before": rng.int(0, len(ops) - 1), "ops": q}
                    if rng.chance(.3):
                        nz["fault"] = hist.gen_fault(rng, KINDS)
                    noise.append(nz)
            vs.append({"env": env, "verbose": rng.choice(["as-is", True, False, None]),
                       "where": rng.weighted([("pristine", 5), ("here", 3), ("thread", 2)]), "noise": noise})
        if index % 150 == 7:
            env = dict(copy.deepcopy(base), entropy=rng.seed())
            vs.append({"env": env, "verbose": "as-is", "where": "process", "hash": rng.int(1, 4000000), "noise": []})
        return {"env": base, "ops": ops, "variants": vs, "otherseed": rng.seed()}

    def execute(self, plan, sim):
        ops = plan["ops"]
        first = run_program(sim, ops, [], laws=True)
        drawn = [samples(op)[1] and r is not None for op, r in zip(ops, first)]
        for k, v in enumerate(plan["variants"]):
            if v["where"] == "process":
                got = other_process(plan, v)
            elif v["where"] == "here":
                s = simmod.Sim(v["env"], None)
                s.begin()
                s.stats = sim.stats
                got = run_program(s, ops, v["noise"], v["verbose"])
            else:
                got = sim.pristine("run", ops, v["noise"], v["env"], v["verbose"], v["where"])
            sim.stats["environments compared"] += 1
            for op, a, b in zip(ops, first, got):
                label = "%s, verbosity %s, clock %s, memory %s%s%s" % (
                    v["where"], v["verbose"], v["env"]["clock"], v["env"].get("poison"),
                    ", with unrelated calls in between" if v["noise"] else "", ", other hash seed" if "hash" in v else "")
                if (a is None) != (b is None) or a is not None and a[1] != b[1]:
                    raise Violation("not-repeated", "%s %s gives %s first and %s again (%s)" % (
                        name_of(op), json.dumps(op)[:300], a and a[0], b and b[0], label))
                if a is not None and a[2] != b[2]:
                    raise Violation("generator-differs", "after %s %s the generator's state is not the same as in the first "
                                    "run (%s)" % (name_of(op), json.dumps(op)[:300], label))
                sim.note(name_of(op), op.get("m"), v["where"], v["verbose"], bool(v["noise"]))
        # another seed gives other samples
        if any(drawn) and not any(op["t"] == "seed" for op in ops):
            s = simmod.Sim(dict(plan["env"], seed=plan["otherseed"]), None)
            s.begin()
            s.stats = sim.stats
            got = run_program(s, ops, [])
            for op, a, b, d in zip(ops, first, got, drawn):
                if d and a is not None and b is not None and a[2] == b[2]:
                    raise Violation("reseeded", "after %s %s the generator's state does not depend on the seed" % (
                        name_of(op), json.dumps(op)[:300]))
                if d and a is not None and b is not None and continuous(op) and a[1] == b[1] and not a[0].startswith("raised"):
                    raise Violation("same-sample", "%s %s returns the same sample for different seeds: %s" % (
                        name_of(op), json.dumps(op)[:300], a[0]))
        if any(drawn):
            sim.nontrivial = True
        sim.log("program", [r and r[1] for r in first])


def continuous(op):
    """samples that differ for sure from seed to seed"""
    return op["t"] == "fn" and op["c"]["fn"].startswith("randoms.randoms_")


def other_process(plan, v):
    """The same program in a new interpreter with another hash seed."""
    code = ("import sys, json\n"
            "from dst import boot\n"
            "boot.load()\n"
            "from dst import kernel\n"
            "kernel.attach()\n"
            "from dst.worlds import c08\n"
            "d = json.load(sys.stdin)\n"
            "from dst.sim import Sim\n"
            "r = c08.ref_run(Sim(d['env']), d['ops'], [], d['env'], 'as-is', 'pristine')\n"
            "print('RESULT' + json.dumps(r))\n")
    env = dict(os.environ, PYTHONHASHSEED=str(v["hash"]))
    r = subprocess.run([sys.executable, "-c", code], input=json.dumps({"env": v["env"], "ops": plan["ops"]}), text=True,
                       capture_output=True, cwd=runner.ROOT, env=env, timeout=80)
    for line in r.stdout.splitlines():
        if line.startswith("RESULT"):
            return json.loads(line[6:])
    raise RuntimeError("new interpreter failed: " + r.stderr[-500:])


def shrinks(plan):
    vs = plan["variants"]
    for i in range(len(vs)):
        if len(vs) > 1:
            yield dict(plan, variants=vs[:i] + vs[i + 1:])
        if vs[i]["noise"]:
            yield dict(plan, variants=vs[:i] + [dict(vs[i], noise=[])] + vs[i + 1:])
    ops = plan["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(plan, ops=ops[:i] + ops[i + 1:])


WORLD = World()
