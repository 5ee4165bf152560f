"""C13: the progress display is well-formed, complete, bounded, and silent when turned off."""
import json
import re
import sys

from .. import boot, catalog, hist, prog, runner, seams
from ..kernel import Violation

KINDS = (("stdout", 6), ("interrupt", 2), ("alarm", 1))
PCT = re.compile(r"(\d+(?:\.\d+)?)\s*%")
DONE, TODO = "#", "_"


def updates_of(line):
    """the updates of a displayed line: each starts with a carriage return"""
    p = line.split("\r")
    return p[0], p[1:]


def check_loop(text, n, kw):
    """None or what is wrong with everything one loop of length n wrote."""
    if not text.endswith("\n") or text.count("\n") != 1:
        return "%d line breaks (one at the end expected)" % text.count("\n")
    return check_line(text[:-1], n, kw)


def check_line(line, n, kw):
    first, ups = updates_of(line)
    if first:
        return "%r is written before the first carriage return" % first[:60]
    if not ups:
        return "nothing is displayed"
    nr = kw.get("num_refresh", 50)
    most = 2 * (nr if n is None else min(nr, n)) + 2
    if len(ups) > most:
        return "%d updates for a refresh count of %d%s" % (len(ups), nr, "" if n is None else " and %d steps" % n)
    if n is not None and 2 * len(ups) < min(nr, n):
        return "only %d updates for a refresh count of %d and %d steps" % (len(ups), nr, n)
    last, width = -1., 0
    for u in ups:
        body = u
        ex = kw.get("explanation")
        if ex:
            if ex not in u:
                return "update %r lacks the label %r" % (u[:80], ex)
            body = u.replace(ex, "", 1)
        m = PCT.findall(body)
        if len(m) != 1:
            return "update %r shows %d percentages" % (u[:90], len(m))
        p = float(m[0])
        if p > 100 or p < 0:
            return "update %r shows %s%%" % (u[:90], m[0])
        if p < last:
            return "%s%% is shown after %g%%" % (m[0], last)
        last = p
        if len(u) < width:
            return "update %r (%d characters) does not cover the previous one (%d)" % (u[:90], len(u), width)
        width = len(u)
        if kw.get("indexing") and n is not None:
            q = re.search(r"\[\s*(\d+)\s*/\s*(\d+)\s*\]", body)
            if not q or int(q.group(2)) != n or not 1 <= int(q.group(1)) <= n:
                return "update %r does not show the position in %d steps" % (u[:90], n)
            if abs(100. * int(q.group(1)) / n - p) > 1.000001:
                return "update %r: %s%% is not %s of %s" % (u[:90], m[0], q.group(1), q.group(2))
    if last != 100:
        return "the last update shows %g%%, not 100%%" % last
    return None


def check_shown(chunks, n):
    """every percentage is that of the step being done: chunks is [(step, text)]"""
    for i, text in chunks:
        for m in PCT.findall(text):
            if abs(float(m) - 100. * (i + 1) / n) > 1.000001:
                return "step %d of %d shows %s%%" % (i + 1, n, m)
    return None


def check_session(text):
    """what a calculation wrote: lines that are either messages or complete displays"""
    if not text:
        return None, 0
    if not text.endswith("\n"):
        return "the output does not end with a line break: %r" % text[-60:], 0
    shown = 0
    for line in text[:-1].split("\n"):
        if "\r" in line:
            bad = check_line(line, None, {})
            if bad:
                return bad, shown
            shown += 1
        elif PCT.search(line) or DONE * 3 in line:
            return "a display that does not overwrite itself: %r" % line[:80], shown
        elif not line.strip():
            return "an empty line", shown
    return None, shown


def shows(op, kind):
    """calculations that surely have a display"""
    return op["t"] == "weights" or op["t"] == "remap" and (kind.startswith("mc.") or kind == "dg.Cube2Shell")


class World:
    prop = "C13"
    runs = {"quick": 4000, "thorough": 120000}
    cap = {"quick": 80, "thorough": 800}
    rule = "a run is non-trivial when a complete display was judged after a failed stream, an interrupted or an interleaved loop"
    measure = "distinct (loop length class, options, calculation, fault) situations plus distinct fault sites"
    real = ["magpie.utils.progress", "all remappers", "numpy", "healpy"]
    stub = ["standard output (simulated stream that can fail at any write or flush)", "clock", "interrupts"]
    assumptions = ["labels contain no percent sign and markers are single characters",
                   "a loop calls the display once per step in order"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        ops = []
        mode = rng.weighted([("loops", 5), ("objects", 4), ("mixed", 2)])
        if mode != "loops":
            ops += prog.gen_program(rng, rng.int(3, 8), fn_share=.15, size=4)
            for op in ops:
                if op["t"] in ("weights", "remap", "mask", "profile"):
                    op["verbose"] = rng.choice([True, True, False, None])
                    if rng.chance(.2):
                        op["fault"] = hist.gen_fault(rng, KINDS)
        if mode != "objects":
            for _ in range(rng.int(1, 5)):
                op = self.gen_loops(rng)
                ops.insert(rng.int(0, len(ops)), op)
        return {"env": hist.gen_env(rng), "ops": ops}

    def gen_loop(self, rng):
        n = rng.weighted([(rng.int(1, 12), 4), (rng.int(12, 120), 5), (rng.int(100, 1500), 2), (rng.choice([49, 50, 51, 99, 100, 101, 149, 150]), 2)])
        kw = {}
        if rng.chance(.4):
            kw["num_refresh"] = rng.weighted([(rng.int(1, 10), 2), (rng.int(10, 120), 2), (n, .5), (n + 1, .5), (max(1, n - 1), .5), (max(1, n // 2 + 1), .5)])
        if rng.chance(.5):
            kw["explanation"] = rng.choice(["Remapping", "a b", "x", ""])
        if rng.chance(.4):
            kw["indexing"] = rng.chance(.8)
        if rng.chance(.3):
            kw["bar_length"] = rng.choice([1, 10, 33, 50, 100])
        if rng.chance(.2):
            kw["marker_done"], kw["marker_undone"] = rng.choice([["=", "."], ["*", " "], ["-", "~"]])
        if rng.chance(.2):
            kw[rng.choice(["bar_edges", "bar_edge_left", "bar_edge_right"])] = rng.choice(["", ":", "!"])
        return {"n": n, "kw": kw}

    def gen_loops(self, rng):
        op = {"t": "loops", "loops": [self.gen_loop(rng)]}
        k = rng.weighted([("one", 5), ("other", 2)])
        if k == "other":        # several loops at once, each with its own stream
            op["loops"] += [self.gen_loop(rng) for _ in range(rng.int(1, 2))]
            op["turns"] = rng.seed()
        if rng.chance(.35):
            op["fault"] = hist.gen_fault(rng, KINDS)
        elif rng.chance(.15):
            op["leave"] = rng.u()       # the loop is left early
        return op

    def loops(self, op, streams, steps, leave=None):
        """runs the loops, taking turns"""
        from ..prng import Rng
        bar = boot.magpie.utils.progress_bar
        L = op["loops"]
        if len(L) == 1:
            def fn():
                d, out = L[0], streams[0]
                for i in range(d["n"]):
                    if leave is not None and i >= leave * d["n"]:
                        return
                    k = len(out.chunks)
                    bar(i, d["n"], **d["kw"])
                    if len(out.chunks) > k:
                        steps[0].append((i, "".join(out.chunks[k:])))
            return fn

        def fn():
            g = Rng("turns", op["turns"])
            at = [0] * len(L)
            while True:
                todo = [x for x in range(len(L)) if at[x] < L[x]["n"]]
                if not todo:
                    return
                x = g.choice(todo)
                for _ in range(g.int(1, 9)):
                    if at[x] < L[x]["n"]:
                        sys.stdout = streams[x]
                        k = len(streams[x].chunks)
                        bar(at[x], L[x]["n"], **L[x]["kw"])
                        if len(streams[x].chunks) > k:
                            steps[x].append((at[x], "".join(streams[x].chunks[k:])))
                        at[x] += 1
        return fn

    def execute(self, plan, sim):
        m = prog.Machine()
        hard = judged = 0
        for step, op in enumerate(plan["ops"]):
            if op["t"] == "loops":
                h = self.run_loops(sim, op, step)
                hard += h
                judged += 1
                continue
            if not m.possible(op):
                continue
            fn, data, after = m.prepare(op)
            kind = m.ob[op["o"]].kind if op.get("o") in m.ob else None
            label = "step %d: %s %s" % (step, kind or "", op["c"]["fn"] if op["t"] == "fn" else op["t"])
            bar = op["t"] == "fn" and "progress" in op["c"]["fn"]
            f = op.get("fault")
            if f:
                o, p, f = sim.faulty(fn, f)
                op["fault"] = f
                hard += bool(o.fired)
                if not o.ok and op["t"] in ("new", "setup", "clean"):
                    m.new({"o": op["o"], "kind": kind})
                if o.ok and after:
                    after()
                if op.get("verbose") is False and o.out.text():
                    raise Violation("not-silent", "%s(verbose=False) writes %r" % (label, o.out.text()[:100]))
                if not o.ok and not m.possible(op):
                    continue
                fn, data, after = m.prepare(op)
            s = seams.SimStdout()
            o = sim.call(fn, _stdout=s)
            if o.ok and after:
                after()
            if not o.ok:        # what may fail is not judged here
                continue
            text = s.text()
            sim.log(label, op.get("verbose"), len(text), text[-30:])
            sim.note(kind, op["t"], op.get("verbose"), bool(f))
            if bar:
                continue
            v = op.get("verbose", False)
            takes = op["t"] in ("weights", "remap", "mask", "profile")
            if v is False or not takes:
                if text or s.ops:
                    raise Violation("not-silent", "%s(%s) writes %r to the output stream" % (
                        label, "verbose=False" if takes else "", text[:100]))
                sim.stats["silent calls judged"] += 1
                continue
            bad, n = check_session(text)
            if bad:
                raise Violation("malformed-display", "%s(verbose=%s) %s; in full: %r" % (label, v, bad, text[:300]))
            if v is True and shows(op, kind) and not n:
                raise Violation("no-display", "%s(verbose=True) displays no progress: %r" % (label, text[:100]))
            if n:
                judged += 1
                sim.stats["displays judged"] += n
        sim.nontrivial = bool(hard and judged)

    def run_loops(self, sim, op, step):
        L = op["loops"]
        hard = len(L) > 1

        def fresh():
            return [seams.SimStdout() for _ in L], [[] for _ in L]
        label = "step %d: loops %s" % (step, json.dumps(L)[:300])
        if op.get("leave") is not None and len(L) == 1:
            st, steps = fresh()
            sim.call(self.loops(op, st, steps, op["leave"]), _stdout=st[0])
            hard = True
        if op.get("fault"):
            st, steps = fresh()
            fn = self.loops(op, st, steps)
            p = sim.profile(fn)
            if len(L) == 1:
                p.writes = min(1 << 30, 2 * len(L[0]) * 100)
            f = dict(op["fault"])
            # the number of output operations of a lone loop is known from a trial run
            if f["kind"] == "stdout" and "n" not in f:
                trial, steps2 = fresh()
                from .. import sim as simmod
                n = simmod.fork_call(lambda: (sim.call(self.loops(op, trial, steps2), _stdout=trial[0]), trial[0].ops)[1])
                f = sim.resolve(f, type("P", (), {"writes": n})) if n else None
            else:
                f = sim.resolve(f, p)
            op["fault"] = f
            if f:
                st, steps = fresh()
                o = sim.call(self.loops(op, st, steps), _fault=f, _stdout=st[0])
                hard = hard or bool(o.fired)
        st, steps = fresh()
        o = sim.call(self.loops(op, st, steps), _stdout=st[0])
        if not o.ok:
            raise Violation("loop-fails", "%s: %s" % (label, o.describe()))
        for x, d in enumerate(L):
            bad = check_loop(st[x].text(), d["n"], d["kw"]) or check_shown(steps[x], d["n"]) or self.bar(st[x].text(), d)
            if bad:
                raise Violation("malformed-display", "%s: loop %d of %d steps with %s: %s; in full: %r" % (
                    label, x, d["n"], d["kw"], bad, st[x].text()[:300]))
            sim.stats["displays judged"] += 1
            sim.note("loop", min(d["n"], 60), sorted(d["kw"]), d["kw"].get("num_refresh", 50) > d["n"], len(L), bool(op.get("fault")))
        sim.log(label, [s.ops for s in st])
        return hard

    def bar(self, text, d):
        """the bar has its length and grows"""
        kw = d["kw"]
        if kw.get("marker_undone") == " ":
            return None
        a, b, n = kw.get("marker_done", DONE), kw.get("marker_undone", TODO), kw.get("bar_length", 50)
        last = 0
        for u in updates_of(text.rstrip("\n"))[1]:
            if kw.get("explanation"):
                u = u.replace(kw["explanation"], "", 1)
            x, y = u.count(a), u.count(b)
            if x + y != n:
                return "a bar of %d instead of %d: %r" % (x + y, n, u)
            if x < last:
                return "the bar shrinks: %r" % u
            last = x
        if last != n:
            return "the bar is not full at the end"
        return None


WORLD = World()
