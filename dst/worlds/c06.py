"""C06: random points follow the stated distribution, with independent coordinates and independent draws."""
import numpy as np

from .. import hist, rand, runner, stats
from ..kernel import Violation

KINDS = (("interrupt", 5), ("memory", 1), ("alloc", 2))


class World:
    prop = "C06"
    runs = {"quick": 3200, "thorough": 50000}
    cap = {"quick": 80, "thorough": 800}
    rule = "a run is non-trivial when a whole sample was drawn and judged by at least three goodness-of-fit tests"
    measure = "distinct (generator, bounds given, call pattern) situations plus distinct fault sites"
    real = ["magpie.randoms", "magpie.coords.healpix", "magpie.pixel", "scipy.interpolate", "numpy's generator (seeded)"]
    stub = ["interrupts and failed allocations between the calls of a sample", "uninitialised memory (simulated contents)"]
    assumptions = ["a sample is rejected at p < 1e-12 per judgement, so a seed's verdict is exact and false alarms are negligible",
                   "a deviation of a distribution function is resolved down to about 3e-2 with 20000 points and 4e-3 with a million"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        while True:
            reg = rand.gen(rng, statistical=True)
            reg["kw"].pop("dummy", None)
            if rand.resolvable(reg):
                break
        N = rng.weighted([(20000, 100), (200000, 3 if tier == "quick" else 10), (1000000, 1.5)])
        pat = rng.weighted([("one", 4), ("chunks", 4), ("equal", 4), ("small", 1)])
        if pat == "one":
            sizes = [N]
        elif pat == "chunks":
            sizes = []
            while sum(sizes) < N:
                sizes.append(rng.int(1, N // 5))
        elif pat == "equal":
            k = rng.choice([20, 100, 400, 1000])
            sizes = [k] * (20000 // k)
        else:
            sizes = [rng.int(1, 3) for _ in range(2500)]
        plan = {"env": hist.gen_env(rng), "reg": reg, "sizes": sizes, "dither": rng.seed(), "lag": rng.int(2, 60), "ops": []}
        if rng.chance(.3):
            plan["ops"].append({"t": "fault", "before": rng.int(0, len(sizes) - 1), "size": rng.int(1, 100),
                                "fault": hist.gen_fault(rng, KINDS)})
        if rng.chance(.3):      # something else is drawn in between
            plan["ops"].append({"t": "other", "before": rng.int(0, len(sizes) - 1), "size": rng.int(1, 100),
                                "reg": rand.gen(rng)})
        return plan

    def execute(self, plan, sim):
        reg = plan["reg"]
        parts = []
        name = "randoms_%s(%s)" % (reg["g"], reg["kw"])
        for i, n in enumerate(plan["sizes"]):
            for op in plan["ops"]:
                if op["before"] != i:
                    continue
                fn = rand.call(op.get("reg", reg), op["size"])
                if op.get("fault"):
                    o, p, f = sim.faulty(fn, op["fault"])
                    op["fault"] = f
                else:
                    sim.call(fn)
            o = sim.call(rand.call(reg, n))
            if not o.ok:
                raise Violation("call-fails", "%s, %d points: %s" % (name, n, o.describe()))
            cols = rand.columns(reg, o.value)
            if len(cols) != rand.NCOL[reg["g"]] or any(c.shape != (n,) or not np.isfinite(c).all() for c in cols):
                raise Violation("malformed", "%s, %d points: %s" % (name, n, o.describe()))
            parts.append(cols)
        cols = [np.concatenate([p[k] for p in parts]).astype(float) for k in range(len(parts[0]))]
        if reg["g"] == "pdf" and reg["kw"]["kind"] != "linear" and not self.monotone(reg):
            return
        g = np.random.Generator(np.random.PCG64(plan["dither"]))
        U = rand.uniform(reg, cols, g)
        if U is None:
            raise Violation("distribution", "%s: points outside the pixel" % name)
        n = len(U[0])
        for i, u in enumerate(U):
            if (u < -1e-6).any() or (u > 1 + 1e-6).any():
                raise Violation("distribution", "%s: coordinate %d leaves the region" % (name, i))
        if min(len(np.unique(c)) for c in cols) < min(n, 200) // 2:
            raise Violation("distribution", "%s: fewer than half of the drawn values are distinct" % name)
        self.worst = 1.

        def judge(p, what):
            sim.stats["judgements"] += 1
            self.worst = min(self.worst, p)
            if p < stats.P:
                raise Violation("distribution", "%s, %d points in %d calls: %s (p = %.1e)" % (
                    name, n, len(plan["sizes"]), what, p))
        for i, u in enumerate(U):
            p, d = stats.ks_p(u)
            judge(p, "coordinate %d does not follow its law: Kolmogorov-Smirnov distance %.4f" % (i, d))
            p, x, df = stats.joint_p([u], stats.divisions(n, 1))
            judge(p, "coordinate %d does not follow its law: chi-squared %.1f with %d degrees of freedom" % (i, x, df))
        d = len(U)
        if d > 1:
            p, x, df = stats.joint_p(U, stats.divisions(n, d))
            judge(p, "coordinates are not independent: chi-squared %.1f with %d degrees of freedom" % (x, df))
        for lag in (1, plan["lag"]):
            self.pairs(judge, U, np.arange(0, n - lag, 1)[(np.arange(n - lag) // lag) % 2 == 0], lag,
                       "points %d apart are not independent" % lag)
        starts = np.cumsum([0] + plan["sizes"][:-1])
        self.every_lag(judge, U, "the sample")
        k = int(np.argmax(plan["sizes"]))
        if 500 <= plan["sizes"][k] < n:
            self.every_lag(judge, [u[starts[k]:starts[k] + plan["sizes"][k]] for u in U], "call %d" % k)
        # corresponding points of consecutive calls
        a, b = [], []
        for i in range(0, len(plan["sizes"]) - 1, 2):
            m = min(plan["sizes"][i], plan["sizes"][i + 1])
            a.append(starts[i] + np.arange(m))
            b.append(starts[i + 1] + np.arange(m))
        if a:
            a, b = np.concatenate(a), np.concatenate(b)
            if a.size >= 400:
                self.pairs(judge, U, a, b - a, "corresponding points of consecutive calls are not independent")
        sim.nontrivial = True
        sim.note(reg["g"], sorted(reg["kw"]), len(plan["sizes"]) > 1, reg["kw"].get("nside"))
        sim.stats["points"] += n
        sim.log("judged", reg["g"], n, "%.3e" % self.worst, float(U[0].sum()))

    def pairs(self, judge, U, i, lag, what):
        m = stats.divisions(len(i), 2)
        for s, u in enumerate(U):
            for t, v in enumerate(U):
                p, x, df = stats.joint_p([u[i], v[i + lag]], m)
                judge(p, "%s (coordinates %d and %d): chi-squared %.1f with %d degrees of freedom" % (what, s, t, x, df))

    def every_lag(self, judge, U, where):
        """no point repeats or mirrors another one, at whatever distance and whether counted from the same or from opposite ends"""
        n = len(U[0])
        V = np.array(U) - .5
        F = np.fft.rfft(V, axis=1)
        for s in range(len(U)):
            for t in range(s + 1):
                for kind in ("from the same end", "from opposite ends"):
                    same = kind == "from the same end"
                    if not same:
                        c = np.fft.irfft(F[s] * F[t], n)
                        if s == t:          # every product is there twice
                            c = c / np.sqrt(2)
                    else:
                        c = np.fft.irfft(F[s] * np.conj(F[t]), n)
                        if s == t:
                            c[0] = 0.
                    z = np.abs(c) * 12 / np.sqrt(n)
                    k = int(np.argmax(z))
                    b = z[k] ** 2 / 2 / (1 + z[k] / np.sqrt(n))       # Bernstein's bound, |product| <= 1/4
                    judge(min(1., 2 * n * float(np.exp(-b))), "in %s, coordinates %d and %d at distance %d counted %s are "
                          "correlated: %.1f sigma" % (where, s, t, k, kind, z[k]))

    def monotone(self, reg):
        from scipy import interpolate
        x, c, _, _ = rand.table(reg)
        kind = "cubic" if reg["kw"]["kind"] == "default" else reg["kw"]["kind"]
        v = interpolate.interp1d(c, x, kind=kind)(np.linspace(0, 1, 4001))
        return bool((np.diff(v) > 0).all())


WORLD = World()
