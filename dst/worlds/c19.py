"""C19: calls leave nothing behind: memory, threads, files and processes stay bounded however many calls are made."""
import gc
import os
import sys
import threading

import numpy as np

from .. import boot, catalog, geom, hist, kernel, prog, runner, sim as simmod
from ..kernel import Violation
from ..prng import Rng

POINTS = 5          # looks, hence POINTS - 1 stretches in each of which the growth must show
KINDS = sorted({k for k, _ in prog.KINDS})


def measure():
    sys._clear_type_cache()         # the interpreter keeps names of looked-up attributes there
    gc.collect()
    n, b, m = boot.memseam.live()
    return {"arrays": n, "array bytes": b, "malloc bytes": m, "objects in use": sys.getallocatedblocks(),
            "threads": threading.active_count(), "files": len(os.listdir("/proc/self/fd"))}


# growth per call, in every stretch, above which something is kept
LIMIT = {"steps per call": .02, "arrays": .03, "array bytes": 4., "malloc bytes": 120., "objects in use": .3, "threads": .01, "files": .01}


class World:
    prop = "C19"
    runs = {"quick": 800, "thorough": 9000}
    cap = {"quick": 110, "thorough": 800}
    timeout = 150.
    rule = "a run is non-trivial when at least one repetition in four was cut short or refused, or an object lived through all of them"
    measure = "distinct (function or remapper, way of use, fault kind) tuples plus distinct fault sites"
    real = ["magpie (all functions of the catalogue, all nine remappers and the view)", "compiled remap routines", "numpy", "healpy", "scipy"]
    stub = ["numpy's allocator (counts live buffers)", "standard output", "clock", "signals (raised at chosen bytecode events)",
            "memory allocation failures"]
    assumptions = ["a cache of at most 1024 entries is not growth",
                   "growth means growth in each of four equal stretches of calls after the warm-up"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        mode = rng.weighted([("fn", 5), ("new", 3), ("keep", 4)])
        p = {"env": hist.gen_env(rng), "mode": mode, "s": rng.seed(),
             "fault": rng.weighted([(None, 3), ("interrupt", 4), ("memory", 2), ("alloc", 2)]),
             "place": rng.choice(["any", "any", "first", "last", "one"]), "u": rng.u(), "bad": rng.choice([0., 0., .3, 1.])}
        if mode == "fn":
            p["entry"] = index % len(catalog.ENTRIES) if rng.chance(.7) else rng.int(0, len(catalog.ENTRIES) - 1)
            p["warm"], p["stretch"], p["long"] = 250, 120, 4000
            if p["fault"] == "alloc" and catalog.ENTRIES[p["entry"]][1] in ("src", "remap"):
                p["fault"] = "interrupt"        # f2py itself loses references to dtypes when a conversion fails
        else:
            p["kind"] = rng.choice(KINDS)
            p["warm"], p["stretch"], p["long"] = (150, 60, 2200) if tier == "quick" else (300, 120, 3500)
            p["uses"] = rng.int(1, 3)
            p["clean"] = rng.chance(.3)
        return p

    def execute(self, plan, sim):
        gc.collect()
        gc.freeze()                     # what exists already need not be looked at again
        W, S = plan["warm"], plan["stretch"]
        if plan["mode"] == "fn":
            rep = self.function(plan)
        else:
            rep = self.objects(plan)
        sites = set()
        st = {"calls": 0, "cut": 0, "refused": 0, "faults": 0, "steps": 0, "lens": [40] * 8}
        name = plan.get("kind") or catalog.ENTRIES[plan["entry"]][0].__name__
        done = [0]

        def stretch(n):
            for _ in range(n):
                rep(done[0], st, sites)
                done[0] += 1

        def look(first, n):
            """growth in each of the stretches after the first"""
            looks, at = [], []
            for i in range(POINTS):
                stretch(first if i == 0 else n)
                st["steps"] = 0
                rep(-1, st, sites)       # the same calls before every look
                looks.append(dict(measure(), **{"steps per call": st["steps"]}))
                at.append(done[0])
            out = []
            for what, lim in LIMIT.items():
                v = [x[what] for x in looks]
                if min(b - a for a, b in zip(v, v[1:])) >= max(1, lim * n):
                    out.append("%s grow without bound: %s after %s calls of %s (%s, %s)" % (
                        what, v, at, name, plan["mode"],
                        "every other call cut by %s" % plan["fault"] if plan["fault"] else "no faults"))
            return out
        grown = look(W, S)
        if grown:                        # it may be the filling of a bounded cache
            grown = look(plan["long"], 2 * S)
        sim.stats["calls"] += st["calls"]
        sim.stats["faults armed"] += st["faults"]
        if plan["fault"]:
            sim.stats["fault " + plan["fault"]] += st["cut"]
        sim.stats["refused calls"] += st["refused"]
        sim.note(name, plan["mode"], plan["fault"], plan["place"])
        for s in sites:
            sim.note("site", s)
        sim.nontrivial = plan["mode"] == "keep" or 4 * (st["cut"] + st["refused"]) >= st["calls"]
        sim.log(name, plan["mode"], st["calls"], st["cut"], st["refused"])
        if grown:
            raise Violation("grows", "; ".join(grown))

    def call(self, plan, k, fn, st, sites, cut):
        """One call, perhaps cut short; what it returns is dropped."""
        f = None
        if cut and plan["fault"]:
            r = Rng("c19", plan["s"], k, st["calls"])
            kd, n = plan["fault"], st["lens"][k % 8]
            p = plan["place"]
            n = max(1, n // (8 if kd == "alloc" else 3 if kd == "memory" else 1))
            at = int(r.u() * n) if p == "any" else r.int(0, 3) if p == "first" else max(0, n - 1 - r.int(0, 3)) if p == "last" \
                else int(plan["u"] * n)
            f = {"kind": kd, "n": at}
            st["faults"] += 1
        s = simmod.Sim()
        o = s.call(fn, _fault=f)
        st["calls"] += 1
        st["steps"] += o.n
        if o.ok and not o.fired:
            st["lens"][k % 8] = o.n
        if f and o.fired:
            st["cut"] += 1
            if o.where and k < plan["warm"]:
                sites.add(o.where)
        elif not o.ok:
            st["refused"] += 1
        return o.ok

    def function(self, plan):
        one, group = catalog.ENTRIES[plan["entry"]][:2]

        only = one(Rng("c19", plan["s"], "fn"))[0]

        def gen(r):
            """the same function each time"""
            while True:
                c = one(r)
                if c[0] == only:
                    return c

        def rep(k, st, sites):
            r = Rng("c19", plan["s"], k)
            r.big = False
            fn, a, kw = gen(r)
            c = {"fn": fn, "a": a, "k": kw}
            # (not where f2py converts the arguments: see plan)
            if k >= 0 and r.chance(plan["bad"]) and group != "src" and not fn.startswith("remap."):
                c = catalog.odd(r, c) if r.chance(.6) else catalog.invalid(r, c)
            np.random.seed(k % 1000 + 1)
            call, data = catalog.build(c)
            self.call(plan, k, call, st, sites, k >= 0 and r.chance(.5))
        return rep

    def objects(self, plan):
        kind = plan["kind"]
        mc = (2, 3)
        keep = {}

        def rep(k, st, sites):
            r = Rng("c19", plan["s"], k)
            r.big = False
            if plan["mode"] == "new" or not keep:
                m = prog.Machine()
                m.new({"o": "a", "kind": kind})
                if plan["mode"] == "keep":
                    keep["m"] = m
            else:
                m = keep["m"]
                m.pool.clear()
            ops = prog.prologue(r, "a", kind, 2, mc)[1:]
            if k >= 0 and plan["mode"] == "keep" and r.chance(.5) and m.ob["a"].kind != "pov" and m.ob["a"].ready:
                ops = ops[2:] if r.chance(.5) else ops[1:]
                if len(ops) and ops[0]["t"] == "setup" and kind == "dg.Cube2Shell":
                    ops = []
            for _ in range(plan["uses"]):
                ops.append(prog.gen_use(r, "a", kind, mc))
            for op in ops:
                if not m.possible(op):
                    continue
                np.random.seed(k % 1000 + 1)
                if k >= 0 and op["t"] == "setup" and r.chance(plan["bad"]):
                    bad = hist.rejected(r, op)
                    kw = geom.real_kw(bad["kw"])
                    self.call(plan, k, lambda: getattr(m.ob["a"].real, bad["m"])(**kw), st, sites, False)
                fn, data, after = m.prepare(op)
                if k >= 0 and r.chance(.5) and plan["fault"]:
                    if self.call(plan, k, fn, st, sites, True):
                        if after:
                            after()
                        continue
                if self.call(plan, k, fn, st, sites, False) and after:
                    after()
            if k < 0:
                m.pool.clear()
            if k < 0 and plan["mode"] == "keep" and plan["clean"]:
                m.ob["a"].real.clean()
                if kind == "pov":
                    m.ob["a"].setup = None
                else:
                    m.ob["a"].unset()
                    m.ob["a"].weights = False
        return rep


WORLD = World()
