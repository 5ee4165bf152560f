"""C02: Monte-Carlo remaps are means of overlapped pixels on every random stream."""
import numpy as np

from .. import geom, hist, overlap, runner
from ..hist import must
from ..kernel import Violation

UNSEEN = -1.6375e30
L = 34.5        # -ln(1e-15)


class World:
    prop = "C02"
    runs = {"quick": 3400, "thorough": 60000}
    cap = {"quick": 80, "thorough": 800}
    rule = "a run is non-trivial when at least one weight calculation finished and its remaps were checked cell by cell"
    measure = "distinct (remapper, radial binning, random stream mode, sample size, coverage of the cells) situations"
    real = ["magpie.montecarlo (all four remappers)", "magpie.randoms", "magpie.coords", "magpie.utils", "numpy", "healpy"]
    stub = ["numpy's uniform generator (legal adversarial streams)", "standard output", "uninitialised memory", "clock"]
    assumptions = ["numpy's generator delivers multiples of 2**-53 in [0, 1)",
                   "a cell overlaps a pixel when a conservative cover of the cell by small discs touches it",
                   "agreement within Monte-Carlo error: Bernstein bound with failure probability 1e-15 per cell"]
    refs = {}
    shrinks = staticmethod(runner.generic_shrinks)

    def plan(self, rng, tier, index):
        kind = rng.choice(geom.MC)
        size = 4 if rng.chance(.8) else 8
        three = geom.family(kind) == "Cube2Shell"
        ops = []
        src = dict(geom.gen_source(rng, kind, size, True), role="src")
        tgt = dict(geom.gen_target(rng, kind, src, size, "all"), role="tgt")
        ops += [dict(src, t="setup"), dict(tgt, t="setup")]
        for i in range(rng.weighted([(1, 5), (2, 2)])):
            if i:
                if rng.chance(.6):
                    src = dict(geom.gen_source(rng, kind, size, True), role="src")
                    ops.append(dict(src, t="setup"))
                if rng.chance(.6):
                    tgt = dict(geom.gen_target(rng, kind, src, size, "all"), role="tgt")
                    ops.append(dict(tgt, t="setup"))
            stream = hist.gen_stream(rng)
            if stream[0] == "real":
                mc = rng.weighted([(2, 1), (3, 1), (40, 2), (400, 2), (None, .3)] if three else
                                  [(2, 1), (3, 1), (40, 1), (400, 2), (2000, 1)] if "Heal" in kind else
                                  [(2, 1), (3, 1), (40, 1), (1000, 2), (20000, 1), (None, .4)])
            else:
                mc = rng.choice([2, 3, 5, 17, 40])
            if three and rng.chance(.03):
                mc = 1
            if stream[0] == "real" and rng.chance(.1):      # one point more than blocks of some size hold
                mc = rng.choice([101, 129, 257, 501, 513, 1001, 1025, 2049] if three or "Heal" in kind else
                                [101, 257, 513, 1001, 1025, 4097, 5001, 8193, 10001, 16385, 20001, 30001, 32769, 40001, 50001,
                                 65537, 100001, 131073])
            n = 1
            for k in ("numr", "nump", "num_alpha", "num_beta", "x_grid", "y_grid"):
                n *= tgt["kw"].get(k, 1)
            if "x_grid" in tgt["kw"] and "y_grid" not in tgt["kw"]:
                n *= tgt["kw"]["x_grid"]
            if "Heal" in kind and mc * n > 200000:          # these go through the points one by one
                mc = max(2, 200000 // n)
            elif mc and mc > 20000 and mc * n > 3000000:
                mc = 20000
            ops.append({"t": "weights", "mc": mc, "seed": rng.seed(), "verbose": rng.chance(.2), "stream": stream})
            for _ in range(rng.int(1, 3)):
                op = {"t": "remap", "f": hist.mapless(rng, kinds=(("rand", 4), ("pos", 2), ("index", 1), ("one", 1),
                                                                  ("int", 1), ("const", 2), ("holes", .7))), "verbose": rng.chance(.2)}
                if op["f"]["kind"] == "const":
                    op["f"]["value"] = rng.choice([1., -3.7, 1e5, 0.])
                if rng.chance(.5):
                    op["w"] = hist.weightless(rng)
                ops.append(op)
            if rng.chance(.5):
                ops.append({"t": "linear", "s": rng.seed()})
            ops.append({"t": "remap", "f": {"kind": "position"}, "verbose": False})
        return {"env": hist.gen_env(rng), "kind": kind, "ops": ops}

    def execute(self, plan, sim):
        ob = hist.Obj(plan["kind"])
        geo = hull = wop = None
        for step, op in enumerate(plan["ops"]):
            t = op["t"]
            if t == "setup":
                r = sim.call(lambda: geom.apply(ob.real, op))
                must(r.ok, "setup-fails", r.describe())
                ob.set(op)
                geo = hull = wop = None
            elif not ob.ready:
                continue
            elif t == "weights":
                hist.seed_all(sim, op["seed"], op["stream"])
                r = sim.call(hist.weights_fn(ob, op))
                must(r.ok, "weights-fail", "step %d: %s.get_weights(mc_size=%s) on stream %s, source %s target %s: %s" % (
                    step, ob.kind, op["mc"], op["stream"], ob.src["kw"], ob.tgt["kw"], r.describe()))
                wop = op
                if geo is None:
                    geo = overlap.Geometry(ob.kind, ob.src, ob.tgt)
                    hull = geo.hull()
                sim.nontrivial = True
                sim.log("weights", ob.kind, op["mc"], op["stream"])
            elif wop is None:
                continue
            elif t == "linear":
                self.linear(sim, ob, op, step, wop)
            else:
                self.remap(sim, ob, op, step, geo, hull, wop)

    def linear(self, sim, ob, op, step, wop):
        """The weights of the means belong to the grids, not to the map."""
        shape = ob.src_shape()
        g = np.random.Generator(np.random.PCG64(op["s"]))
        f, h = g.uniform(-1, 1, shape), g.uniform(-1, 1, shape) ** 3
        a, b = g.uniform(-2, 2, 2)
        w = g.uniform(.2, 1, shape)
        sphere = geom.family(ob.kind) == "Cube2Shell"

        def ask(m, **k):
            r = sim.call(lambda: ob.real.remap(m, verbose=False, **k))
            must(r.ok, "remap-fails", "step %d: %s %s" % (step, ob.kind, r.describe()))
            v = np.array(r.value, float)
            return np.where(v == UNSEEN, np.nan, v) if sphere else v
        msg = "step %d: %s stream %s mc %s source %s target %s" % (step, ob.kind, wop["stream"], wop["mc"], ob.src["kw"], ob.tgt["kw"])
        with np.errstate(all="ignore"):
            pairs = [("remap of a sum of maps", ask(a * f + b * h), a * ask(f) + b * ask(h)),
                     ("weighted remap", ask(f, w=w), ask(f * w) / ask(w))]
        for name, x, y in pairs:
            bad = ~((np.abs(x - y) <= 1e-10 * (abs(a) + abs(b) + 1)) | (np.isnan(x) & np.isnan(y)))
            if bad.any():
                i = tuple(int(q) for q in np.argwhere(bad)[0])
                raise Violation("weights-depend-on-map", "%s: %s: cell %s is %r, from the parts it is %r" % (
                    msg, name, i, float(x[i]), float(y[i])))
        sim.stats["linearity checks"] += 1

    def remap(self, sim, ob, op, step, geo, hull, wop):
        shape = ob.src_shape()
        if op["f"]["kind"] == "position":       # squared distance of the pixel centre from the grid's centre
            f = position(geo).reshape(shape)
        else:
            f = hist.shaped(op["f"], shape)
        w = hist.shaped(op["w"], shape) if op.get("w") else None
        kw = {"verbose": op["verbose"]}
        if w is not None:
            kw["w"] = w
        r = sim.call(lambda: ob.real.remap(f, **kw))
        msg = "step %d: %s stream %s mc %s source %s target %s" % (step, ob.kind, wop["stream"], wop["mc"],
                                                                  ob.src["kw"], ob.tgt["kw"])
        must(r.ok, "remap-fails", "%s: %s" % (msg, r.describe()))
        got = r.value
        must(isinstance(got, np.ndarray) and got.shape == ob.tgt_shape(), "wrong-shape", "%s: %r" % (msg, np.shape(got)))
        flag = got == UNSEEN if geo.fam == "Cube2Shell" else np.isnan(got)
        ff = np.asarray(f, dtype=float).ravel()
        ww = None if w is None else np.asarray(w, dtype=float).ravel()
        n = 0
        for c in hull:
            g, fl = float(got[c.index]), bool(flag[c.index])
            if c.pix.size == 0:
                must(fl, "not-flagged", "%s: cell %s overlaps no pixel but is %r" % (msg, c.index, g))
                continue
            pix = c.pix
            zero = False
            if ww is not None:
                zero = bool((ww[pix] == 0).any())
                pix = pix[ww[pix] > 0]
            if zero and np.isnan(g):
                continue                # all hit pixels have weight zero
            if fl and np.isnan(ff[c.pix]).any():
                continue
            if fl:
                must(not c.inside, "flagged", "%s: cell %s lies inside the source but is flagged" % (msg, c.index))
                continue
            v = ff[pix]
            if np.isnan(v).any():       # a missing pixel may show in the cells it overlaps
                continue
            lo, hi = v.min(), v.max()
            tol = 1e-9 * max(np.abs(v).max(), 1e-12)
            must(lo - tol <= g <= hi + tol, "not-a-mean", "%s%s: cell %s is %r, overlapped pixels lie in [%r, %r]" % (
                msg, " weighted" if ww is not None else "", c.index, g, float(lo), float(hi)))
            n += 1
        sim.stats["cells checked"] += n
        sim.note(ob.kind, ob.tgt["m"], wop["stream"][0], wop["mc"], n == 0, n == len(hull), ww is not None)
        if wop["stream"][0] == "real" and (wop["mc"] or 100) >= 400 and not np.isnan(ff).any():
            self.converge(sim, geo, hull, got, flag, ff, ww, wop["mc"] or (100 if geo.fam == "Cube2Shell" else 10000), msg)

    def converge(self, sim, geo, hull, got, flag, f, w, mc, msg):
        D = V = B = 0.
        g = np.append(f, 0.)
        for c in hull:
                i, j = c.index
                pix = geo.quad(i, j)
                p = float((pix >= 0).mean())
                pix = pix[pix >= 0]
                n = mc * p - 8.3 * np.sqrt(mc * p)
                if n < 60:
                    continue
                x = f[pix]
                q = np.ones(len(pix)) if w is None else w[pix]
                qa = 1. if w is None else w[c.pix].max()
                if q.mean() <= .02 * qa:
                    continue
                mu = (q * x).mean() / q.mean()
                s2 = ((q * (x - mu)) ** 2).mean() / q.mean() ** 2
                v = f[c.pix]
                rng = (v.max() - v.min()) * qa / q.mean()
                qe = 4. / np.sqrt(len(pix)) * rng
                tol = np.sqrt(2 * L * s2 / n) + 2 * L * rng / (3 * n)
                if w is not None:
                    tol *= 1.5
                d = float(got[i, j]) - mu
                sim.stats["cells compared with quadrature"] += 1
                must(not flag[i, j] and abs(d) <= tol + qe + 1e-9 * abs(mu), "wrong-mean",
                     "%s: cell %s is %r, the exact overlap mean is %r +- %r" % (msg, (i, j), float(got[i, j]), mu, tol + qe))
                D += d
                V += s2 / n
                B += rng / n + qe / L * .5
        tol = np.sqrt(2 * L * V) + L * B
        if w is None:
            must(abs(D) <= tol + 1e-9 * np.abs(f).max(), "biased-mean",
                 "%s: summed over cells the remap is off by %r (allowed %r)" % (msg, D, tol))


def position(geo):
    s = geo.s
    if geo.fam in ("Box2Ring", "Cube2Shell"):
        ax = [geom.mids(geom.edges(s[n + "min"], s[n + "max"], s["num" + n])) - c for n, c in zip("xyz", geo.c)]
        if len(ax) == 2:
            return (ax[0][None, :] ** 2 + ax[1][:, None] ** 2).ravel()
        return (ax[0][None, :, None] ** 2 + ax[1][:, None, None] ** 2 + ax[2][None, None, :] ** 2).ravel()
    import healpy as hp
    v = np.array(hp.pix2vec(s["nside"], np.arange(12 * s["nside"] ** 2)))
    z = geo.M @ np.array([0., 0., 1.] if geo.fam == "Heal2Ring" else [1., 0., 0.])
    return 1. - z @ v


WORLD = World()
