"""Simulated threads: schedules, and calls compared with what they return alone."""
from . import sim as simmod
from .kernel import Violation

KINDS = (("interrupt", 5), ("alarm", 1), ("memory", 1))


def gen_slices(rng, threads):
    """A schedule: [[k, n], ...] lets the k-th runnable thread run for n events."""
    mode = rng.weighted([("fine", 3), ("mixed", 4), ("few", 3), ("pair", 2)])
    if mode == "fine":
        return [[rng.int(0, threads - 1), rng.int(1, 3)] for _ in range(rng.int(20, 250))]
    if mode == "mixed":
        return [[rng.int(0, threads - 1), int(2 ** rng.uniform(0, 7))] for _ in range(rng.int(5, 80))]
    if mode == "few":
        return [[rng.int(0, threads - 1), int(2 ** rng.uniform(0, 9))] for _ in range(rng.int(1, 5))]
    out = []        # strictly alternating
    n = rng.int(1, 12)
    for i in range(rng.int(10, 150)):
        out.append([i % threads, n])
    return out


def run(sim, calls, slices, msg):
    """calls: one list per thread of (label, function, judge) with judge(outcome) -> None or what is wrong.
    Runs them as simulated threads and judges every outcome."""
    got = [[None] * len(c) for c in calls]

    def body(i):
        def go(h):
            for j, (label, fn, fault, judge) in enumerate(calls[i]):
                got[i][j] = h.call(fn, _fault=fault)
        return go
    s = sim.threads([body(i) for i in range(len(calls))], slices)
    for i, c in enumerate(calls):
        for j, (label, fn, fault, judge) in enumerate(c):
            o = got[i][j]
            bad = judge(o)
            if bad:
                raise Violation("disturbed", "thread %d of %d, %s, while the others ran [%s]: %s%s" % (
                    i, len(calls), label, "; ".join(x[0] for k, y in enumerate(calls) if k != i for x in y)[:400], bad, msg))
    return s


def equals(p):
    """A judge that expects what the call returned alone (p: its profile)."""
    def judge(o):
        if o.fired and not o.ok:
            return None
        if o.ok != p.ok:
            return "%s, alone it %s" % (o.describe(), p.describe())
        if o.ok and not simmod.same(o.value, p.value):
            d = ""
            try:
                d = simmod.first_difference(o.value, p.value)
            except Exception:
                pass
            return "%s, alone it %s (%s)" % (o.describe(), p.describe(), d)
        if not o.ok and type(o.exc) is not type(p.exc):
            return "%s, alone it %s" % (o.describe(), p.describe())
        return None
    return judge
