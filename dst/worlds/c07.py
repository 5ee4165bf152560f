"""C07: subsampling and stochastic weights obey their laws on every random stream."""
import math
from collections import Counter
from itertools import permutations, combinations

import numpy as np

from .. import boot, hist, runner, seams, stats
from ..hist import must
from ..kernel import Violation

KINDS = (("interrupt", 5), ("memory", 1), ("alloc", 2))
FNS = ("shuffle", "random_draw", "random_prob_draw", "stochastic_integer_weights", "stochastic_binary_weights")


def gen_sample(rng, n, distinct):
    return {"n": n, "kind": rng.weighted([("float", 4), ("int", 3), ("rows", 3), ("small", 1), ("index", 2)]),
            "distinct": distinct, "seed": rng.seed(), "readonly": rng.chance(.3)}


def sample_of(s):
    g = np.random.Generator(np.random.PCG64(s["seed"]))
    n = s["n"]
    if s["kind"] == "index":
        a = np.arange(n)
    elif s["distinct"]:
        a = g.permutation(np.arange(n) * 3 + 1)
    else:
        a = g.integers(0, max(2, n // 2), n)
    if s["kind"] == "float":
        a = a * .37 - 1.
    elif s["kind"] == "rows":
        a = np.stack([a, a % 3, -a], axis=1)
    elif s["kind"] == "small":
        a = a.astype(np.float32)
    if s["readonly"]:
        a.setflags(write=False)
    return a


def gen_prob(rng, n, positive):
    k = rng.weighted([("mixed", 5), ("ones", 1), ("range", 3), ("tiny", 1), ("equal", 1)])
    return {"n": n, "kind": k, "seed": rng.seed(), "positive": positive}


def prob_of(s):
    g = np.random.Generator(np.random.PCG64(s["seed"]))
    n = s["n"]
    p = g.uniform(0, 1, n)
    if s["kind"] == "mixed":
        p = np.where(g.uniform(0, 1, n) < .3, g.integers(0, 2, n), p)
    elif s["kind"] == "ones":
        p = np.ones(n)
    elif s["kind"] == "tiny":
        p = p * 2. ** -50
    elif s["kind"] == "equal":
        p = np.full(n, .5)
    if s["positive"]:
        p = np.where(p <= 0, .25, p)
    return p


def gen_weights(rng, fn):
    w = {"n": rng.weighted([(rng.int(1, 12), 5), (rng.int(0, 1), 1), (rng.int(12, 60), 1)]), "seed": rng.seed(),
            "kind": rng.weighted([("mixed", 6), ("below", 2), ("int", 1), ("large", 1), ("edge", 2), ("signed", 1)]),
            "scalar": rng.weighted([("no", 6), ("float", 2), ("int", 1), ("np", 1)]), "readonly": rng.chance(.3)}
    if w["kind"] == "signed" and fn.endswith("binary_weights"):
        w["kind"] = "mixed"
    return w


def weights_of(s):
    g = np.random.Generator(np.random.PCG64(s["seed"]))
    n = max(s["n"], 1) if s["scalar"] != "no" else s["n"]
    w = g.uniform(0, 4, n)
    if s["kind"] == "mixed":
        w = np.where(g.uniform(0, 1, n) < .3, np.floor(w), w)
    elif s["kind"] == "below":
        w = w / 4
    elif s["kind"] == "int":
        w = np.floor(w)
    elif s["kind"] == "large":
        w = w * 1000.
    elif s["kind"] == "signed":     # only for the integer weights
        w = w * 2. - 4.
    elif s["kind"] == "edge":
        w = np.floor(w) + np.where(g.uniform(0, 1, n) < .5, 2. ** -40, -2. ** -40)
        w = np.abs(w)
    if s["scalar"] == "float":
        return float(w[0])
    if s["scalar"] == "int":
        return int(w[0])
    if s["scalar"] == "np":
        return np.float64(w[0])
    if s["readonly"]:
        w.setflags(write=False)
    return w


def keys(a):
    a = np.asarray(a)
    return [tuple(r) if a.ndim > 1 else r for r in a.tolist()]


class World:
    prop = "C07"
    runs = {"quick": 3600, "thorough": 200000}
    cap = {"quick": 80, "thorough": 800}
    rule = ("a run is non-trivial when a law was judged on an adversarial stream or frequencies were judged over at least "
            "a thousand calls")
    measure = "distinct (function, stream, argument class) situations plus distinct fault sites"
    real = ["magpie.randoms.subsample", "numpy"]
    stub = ["the stream of uniform random numbers (half of the runs)", "uninitialised memory (simulated contents)",
            "interrupts and failed allocations"]
    assumptions = ["frequencies are rejected at p < 1e-12 per judgement", "weights are scalars or one-dimensional arrays"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        if rng.chance(.04):
            return {"env": hist.gen_env(rng), "freq": None, "big": self.gen_big(rng, tier), "ops": []}
        if rng.chance(.3):
            return {"env": hist.gen_env(rng), "freq": self.gen_freq(rng, tier), "ops": []}
        ops = []
        for _ in range(rng.int(2, 8)):
            fn = rng.choice(FNS)
            n = rng.weighted([(rng.int(2, 12), 5), (1, 1), (rng.int(12, 80), 2), (rng.int(80, 5000), 1)])
            op = {"fn": fn, "stream": hist.gen_stream(rng)}
            if n > 80 and rng.chance(.6):
                op["stream"] = ["real"]
            if fn.startswith("stoch"):
                op["w"] = gen_weights(rng, fn)
            else:
                op["s"] = gen_sample(rng, n, rng.chance(.6))
                if fn == "random_draw" or fn == "random_prob_draw" and rng.chance(.5):
                    op["size"] = rng.weighted([(rng.int(0, n - 1), 5), (n - 1, 1), (0, .5), (rng.int(0, (n - 1) // 10), 1)])
                if fn == "random_prob_draw":
                    op["p"] = gen_prob(rng, n, "size" in op)
            if rng.chance(.1):
                op["fault"] = hist.gen_fault(rng, KINDS)
            ops.append(op)
            if rng.chance(.2):
                ops.append(dict(op, fault=None, stream=hist.gen_stream(rng)))
        return {"env": hist.gen_env(rng), "ops": ops, "freq": None}

    def gen_freq(self, rng, tier):
        fn = rng.choice(FNS)
        q = {"fn": fn, "calls": 3000 if tier == "quick" or rng.chance(.8) else 30000, "extra": rng.chance(.3)}
        if fn.startswith("stoch"):
            q["w"] = gen_weights(rng, fn)
            if q["w"]["n"] == 0:
                q["w"]["n"] = 3
        else:
            n = rng.weighted([(rng.int(2, 5), 5), (rng.int(6, 30), 3)])
            q["s"] = dict(gen_sample(rng, n, True))
            if fn == "random_draw" or fn == "random_prob_draw" and rng.chance(.5):
                q["size"] = rng.int(1, n - 1)
            if fn == "random_prob_draw":
                q["p"] = gen_prob(rng, n, "size" in q)
                q["p"]["kind"] = rng.choice(["mixed", "range", "range", "equal"])
        return q

    def gen_big(self, rng, tier):
        fn = rng.choice(FNS)
        n = rng.choice([50000, 100000, 200000, 1000000] if tier == "quick" else [100000, 1000000, 4000000])
        q = {"fn": fn, "n": n + rng.int(0, 1), "rows": rng.chance(.2), "f": rng.weighted([(rng.uniform(.01, .99), 4), (.5, 1)]),
             "base": rng.int(0, 3) if fn.endswith("integer_weights") else 0, "calls": rng.int(1, 3)}
        if fn == "random_draw" or fn == "random_prob_draw" and rng.chance(.5):
            q["size"] = rng.int(n // 10, n - n // 10)
        return q

    def big(self, q, sim):
        """Within one call on a large array: every member, every pair of neighbours and every block is treated alike."""
        seams.RANDOM.set("real")
        n, fn = q["n"], getattr(boot.magpie.randoms, q["fn"])
        name = "%s of %d members (%s)" % (q["fn"], n, q)
        self.worst = 1.

        def judge(p, what):
            sim.stats["frequencies judged"] += 1
            self.worst = min(self.worst, p)
            if p < stats.P:
                raise Violation("frequencies", "%s: %s (p = %.1e)" % (name, what, p))
        sample = np.arange(n)
        if q["rows"]:
            sample = np.stack([sample, sample % 7], axis=1)
        calls = []
        for _ in range(q["calls"]):
            if q["fn"].startswith("stoch"):
                o = sim.call(lambda: fn(np.full(n, q["base"] + q["f"])))
            elif q["fn"] == "shuffle":
                o = sim.call(lambda: fn(sample))
            elif q["fn"] == "random_draw":
                o = sim.call(lambda: fn(sample, q["size"]))
            elif "size" in q:
                o = sim.call(lambda: fn(sample, np.full(n, q["f"]), size=q["size"]))
            else:
                o = sim.call(lambda: fn(sample, np.full(n, q["f"])))
            must(o.ok, "call-fails", "%s: %s" % (name, o.describe()))
            got = np.asarray(o.value)
            rank = None
            if q["fn"].startswith("stoch"):
                must(got.shape == (n,), "law", "%s: shape %s" % (name, got.shape))
                hit = got == q["base"] + 1
                must(bool((hit | (got == q["base"])).all()), "law", "%s: neither floor nor ceiling" % name)
                f = q["f"]
            else:
                if q["rows"]:
                    must(got.ndim == 2 and got.shape[1] == 2 and bool((got[:, 0] % 7 == got[:, 1]).all()), "law",
                         "%s: rows are torn apart" % name)
                    got = got[:, 0]
                must(got.ndim == 1 and got.dtype.kind == "i" and (not got.size or 0 <= got.min() and got.max() < n), "law",
                     "%s: not members" % name)
                hit = np.zeros(n, bool)
                hit[got] = True
                must(int(hit.sum()) == len(got), "law", "%s: a member comes twice" % name)
                want = n if q["fn"] == "shuffle" else q.get("size")
                must(want is None or len(got) == want, "law", "%s: %d members" % (name, len(got)))
                f = want / n if want is not None else q["f"]
                rank = np.full(n, -1)
                rank[got] = np.arange(len(got))
            calls.append(hit)
            judge(stats.binom_p(int(hit.sum()), n, f) if f < 1 else 1., "%d are chosen or rounded up, expected %.0f" % (hit.sum(), f * n))
            if 0 < f < 1:
                b = 64
                m = n // b
                c = hit[:m * b].reshape(b, m).sum(axis=1)
                for what, c in (("blocks", c), ("strides", hit[:m * b].reshape(m, b).sum(axis=0))):
                    p, x, df = stats.chi2_p(np.concatenate([c, m - c]), np.concatenate([np.full(b, m * f), np.full(b, m * (1 - f))]))
                    judge(p if x > 2 * df else 1., "%s are not treated alike: chi-squared %.1f of %d" % (what, x, df))
                for lag in (1, 2, 64):
                    i = np.arange(0, n - lag)
                    i = i[(i // lag) % 2 == 0]
                    k = int((hit[i] & hit[i + lag]).sum())
                    judge(stats.binom_p(k, len(i), f * f), "%d of %d pairs at distance %d are both chosen" % (k, len(i), lag))
            if rank is not None and len(got) > 1000:
                for lag in (1, 2, 64):
                    i = np.arange(0, n - lag)
                    i = i[(i // lag) % 2 == 0]
                    both = hit[i] & hit[i + lag]
                    k = int((rank[i] < rank[i + lag])[both].sum())
                    judge(stats.binom_p(k, int(both.sum()), .5), "%d of %d pairs at distance %d keep their order" % (k, both.sum(), lag))
                p, x, df = stats.joint_p([got / n, np.arange(len(got)) / len(got)], 16)
                judge(p, "places and members are not independent: chi-squared %.1f of %d" % (x, df))
        for a, b in zip(calls, calls[1:]):
            f = calls[0].mean()
            if 0 < f < 1:
                k = int((a & b).sum())
                judge(stats.binom_p(k, n, a.mean() * b.mean()), "%d members are chosen in both of two calls" % k)
        sim.nontrivial = True
        sim.note("big", q["fn"], "size" in q, q["rows"])
        sim.log("big", q["fn"], n, "%.3e" % self.worst)

    def args(self, op):
        fn = getattr(boot.magpie.randoms, op["fn"])
        if "w" in op:
            w = weights_of(op["w"])
            return (lambda: fn(w)), w
        s = sample_of(op["s"])
        if op["fn"] == "shuffle":
            return (lambda: fn(s)), s
        if op["fn"] == "random_draw":
            return (lambda: fn(s, op["size"])), s
        p = prob_of(op["p"])
        if "size" in op:
            return (lambda: fn(s, p, size=op["size"])), s
        return (lambda: fn(s, p)), s

    def execute(self, plan, sim):
        if plan.get("big"):
            return self.big(plan["big"], sim)
        if plan["freq"]:
            return self.freq(plan["freq"], sim)
        for step, op in enumerate(plan["ops"]):
            seams.RANDOM.set(*op["stream"])
            fn, data = self.args(op)
            if op.get("fault"):
                o, p, f = sim.faulty(fn, op["fault"])
                op["fault"] = f
                if not o.ok:
                    o = sim.call(fn)
            else:
                o = sim.call(fn)
            name = "step %d: %s(%s%s) on stream %s" % (step, op["fn"], np.array2string(np.asarray(data), threshold=20), ", size=%s" % op["size"] if "size" in op else "",
                                                     op["stream"][0])
            must(o.ok, "call-fails", "%s: %s" % (name, o.describe()))
            bad = self.law(op, data, o.value)
            if bad:
                raise Violation("law", "%s returned %s: %s" % (name, o.describe()[9:], bad))
            if op["stream"][0] != "real":
                sim.nontrivial = True
            sim.note(op["fn"], op["stream"][0], op.get("s", op.get("w"))["kind"], op.get("w", {}).get("scalar"),
                     "size" in op, op.get("p", {}).get("kind"), np.ndim(data))
            sim.stats["laws judged"] += 1
            sim.log(step, op["fn"], repr(o.value)[:60])

    def law(self, op, data, got):
        fn = op["fn"]
        if "w" in op:
            if np.isscalar(data):
                if not np.isscalar(got) and np.ndim(got) != 0:
                    return "a scalar weight gives %r" % (got,)
                g, w = np.array([float(got)]), np.array([float(data)])
            else:
                g, w = np.asarray(got), np.asarray(data)
                if g.shape != w.shape:
                    return "shape %s for weights of shape %s" % (g.shape, w.shape)
            if fn.endswith("integer_weights"):
                bad = (g != np.floor(w)) & (g != np.ceil(w))
            else:
                bad = ((g != 0) & (g != 1)) | ((w >= 1) & (g != 1)) | ((w == 0) & (g != 0))
            if bad.any():
                i = int(np.argmax(bad))
                return "weight %r becomes %r" % (float(w[i]), float(g[i]))
            return None
        got = np.asarray(got)
        if got.dtype != data.dtype or got.shape[1:] != data.shape[1:]:
            return "type or shape of members changed to %s %s" % (got.dtype, got.shape)
        cs, cg = Counter(keys(data)), Counter(keys(got))
        if cg - cs:
            k = next(iter(cg - cs))
            return "member %s returned %d times, the sample has it %d times" % (k, cg[k], cs[k])
        if fn == "shuffle" and cg != cs:
            return "not a permutation"
        if "size" in op and len(got) != op["size"]:
            return "%d members instead of %d" % (len(got), op["size"])
        if fn == "random_prob_draw" and "size" not in op:
            p = prob_of(op["p"])
            must_, may = Counter(), Counter()
            for k, q in zip(keys(data), p):
                must_[k] += bool(q >= 1)
                may[k] += bool(q > 0)
            if cg - may:
                return "member %s has no chance of being drawn" % (next(iter(cg - may)),)
            if must_ - cg:
                return "member %s has probability one and is missing" % (next(iter(must_ - cg)),)
        return None

    # -- frequencies

    def freq(self, q, sim):
        seams.RANDOM.set("real")
        fn, data = self.args(q)
        M = q["calls"]
        other = lambda: boot.magpie.randoms.randoms_1d(3)

        def many():
            out = []
            for i in range(M):
                out.append(fn())
                if q["extra"] and i % 3 == 0:
                    other()
            return out
        o = sim.call(many)
        name = "%d calls of %s(%s%s)" % (M, q["fn"], np.array2string(np.asarray(data), threshold=20), ", size=%s" % q["size"] if "size" in q else "")
        must(o.ok, "call-fails", "%s: %s" % (name, o.describe()))
        self.worst = 1.
        for v in o.value[:50]:
            bad = self.law(q, data, v)
            if bad:
                raise Violation("law", "%s: %s" % (name, bad))

        def judge(p, what):
            sim.stats["frequencies judged"] += 1
            self.worst = min(self.worst, p)
            if p < stats.P:
                raise Violation("frequencies", "%s: %s (p = %.1e)" % (name, what, p))
        if "w" in q:
            self.freq_weights(q, data, o.value, judge)
        else:
            self.freq_members(q, data, o.value, judge)
        sim.nontrivial = True
        sim.note("freq", q["fn"], q.get("s", q.get("w"))["kind"], "size" in q, np.size(data))
        sim.log("freq", q["fn"], "%.3e" % self.worst)

    def freq_weights(self, q, w, vals, judge):
        w = np.atleast_1d(np.asarray(w, float))
        V = np.array([np.atleast_1d(np.asarray(v, float)) for v in vals])
        for i, x in enumerate(w):
            if q["fn"].endswith("binary_weights"):
                k, p = int((V[:, i] == 1).sum()), min(x, 1.)
            else:
                f = x - math.floor(x)
                k, p = (int((V[:, i] == math.ceil(x)).sum()), f) if f > 0 else (int((V[:, i] == x).sum()), 1.)
            judge(stats.binom_p(k, len(V), p), "weight %r is rounded up (or set) %d times of %d" % (x, k, len(V)))
            if len(V) > 1 and 0 < p < 1:      # successive calls must not repeat one another
                u = (V[:, i] == (1. if q["fn"].endswith("binary_weights") else math.ceil(x))).astype(float)
                half = len(u) // 2
                k = int(((u[0:2 * half:2] == 1) & (u[1:2 * half:2] == 1)).sum())
                judge(stats.binom_p(k, half, p * p), "weight %r is rounded up in %d of %d pairs of consecutive calls" % (x, k, half))

    def freq_members(self, q, data, vals, judge):
        pos = {k: i for i, k in enumerate(keys(data))}
        n, M = len(data), len(vals)
        draws = [[pos[k] for k in keys(v)] if len(v) else [] for v in vals]
        inc = np.zeros((M, n), bool)
        for r, d in enumerate(draws):
            inc[r, d] = True
        fn = q["fn"]
        if fn == "shuffle":
            if n <= 4:
                table = {t: i for i, t in enumerate(permutations(range(n)))}
                c = np.bincount([table[tuple(d)] for d in draws], minlength=len(table))
                p, x, df = stats.chi2_p(c, np.full(len(table), M / len(table)))
                judge(p, "orders are not equally likely: chi-squared %.1f with %d degrees of freedom" % (x, df))
            D = np.array(draws)
            where = np.argsort(D, axis=1)
            if M / n >= 30:
                for i in range(n):
                    p, x, df = stats.chi2_p(np.bincount(where[:, i], minlength=n), np.full(n, M / n))
                    judge(p, "positions of member %d are not equally likely: chi-squared %.1f" % (i, x))
        elif fn == "random_draw":
            k = q["size"]
            for i in range(n):
                c = int(inc[:, i].sum())
                judge(stats.binom_p(c, M, k / n), "member %d is drawn %d times, expected %.0f" % (i, c, M * k / n))
            if math.comb(n, k) <= M / 40:
                table = {t: j for j, t in enumerate(combinations(range(n), k))}
                c = np.bincount([table[tuple(sorted(d))] for d in draws], minlength=len(table))
                if len(table) > 1:
                    p, x, df = stats.chi2_p(c, np.full(len(table), M / len(table)))
                    judge(p, "subsets are not equally likely: chi-squared %.1f with %d degrees of freedom" % (x, df))
        else:
            pr = prob_of(q["p"])
            if "size" not in q:
                for i in range(n):
                    c = int(inc[:, i].sum())
                    judge(stats.binom_p(c, M, min(1., max(0., float(pr[i])))),
                          "member %d with probability %r is drawn %d times of %d" % (i, float(pr[i]), c, M))
            else:
                for i in range(n):
                    for j in range(n):
                        if pr[i] > pr[j]:
                            a = int((inc[:, i] & ~inc[:, j]).sum())
                            b = int((inc[:, j] & ~inc[:, i]).sum())
                            if a + b < 50:
                                continue
                            f = a / (a + b)
                            if f < .5:
                                judge(stats.binom_p(a, a + b, .5), "member %d (probability %r) is drawn less often than member %d "
                                      "(probability %r): alone %d and %d times" % (i, pr[i], j, pr[j], a, b))
                            if pr[i] >= 3 * pr[j] and f < .75:
                                judge(stats.binom_p(a, a + b, .75) if f < .65 else 1.,
                                      "member %d (probability %r) is not favoured over member %d (probability %r): alone %d and %d "
                                      "times" % (i, pr[i], j, pr[j], a, b))
        # any two drawn members come in either order equally often
        rank = np.full((M, n), -1)
        for r, d in enumerate(draws):
            rank[r, d] = np.arange(len(d))
        for i, j in [(0, n - 1), (0, 1), (n // 2, n - 1)]:
            if i >= j:
                continue
            both = inc[:, i] & inc[:, j]
            m = int(both.sum())
            if m >= 50:
                a = int((rank[both, i] < rank[both, j]).sum())
                judge(stats.binom_p(a, m, .5), "member %d comes before member %d in %d of %d draws" % (i, j, a, m))


WORLD = World()
