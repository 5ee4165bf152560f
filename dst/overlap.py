"""Which source pixels a target cell of a Monte-Carlo remapper can overlap, and its exact mean.

`hull` gives conservative answers (every pixel the cell might touch), `quad` a fine quadrature.
"""
import healpy as hp
import numpy as np

from . import geom
from .geom import DEFAULTS, PI, center_of, edges, family

EPS = 1e-7


def redges(op):
    k = op["kw"]
    if op["m"] == "setup_polar_log":
        if k.get("addzero", True):
            e = np.zeros(k["numr"] + 1)
            e[1:] = np.geomspace(k["rmin"], k["rmax"], k["numr"]) if k["numr"] > 1 else [k["rmin"]]
            return e
        return np.geomspace(k["rmin"], k["rmax"], k["numr"] + 1)
    return edges(k["rmin"], k["rmax"], k["numr"])


class Cell:
    __slots__ = ("pix", "inside", "index")


class Geometry:
    def __init__(self, kind, src, tgt):
        self.kind, self.fam = kind, family(kind)
        self.s, self.k, self.tgt = src["kw"], tgt["kw"], tgt
        self.shape = geom.tgt_shape(kind, tgt)
        self.d = lambda n: self.k.get(n, DEFAULTS[n])
        f = self.fam
        if f == "Box2Ring":
            self.re = redges(tgt)
            self.pe = edges(self.d("pmin"), self.d("pmax"), self.k["nump"])
            self.c = center_of(self.k, 2)
        elif f == "Cube2Shell":
            self.re = redges(tgt)
            self.c = center_of(self.k, 3)
        elif f == "Heal2Ring":
            self.ae = edges(self.k["alpha_min"], self.k["alpha_max"], self.k["num_alpha"])
            self.be = edges(self.d("beta_min"), self.d("beta_max"), self.k["num_beta"])
            self.M = geom.cap_matrix(center_of(self.k, 2), self.d("beta_shift"))
        else:
            xl = self.k["x_length"]
            yl = self.k.get("y_length", min(xl, PI))
            ny = self.k.get("y_grid", self.k["x_grid"])
            self.xe = edges(-xl / 2, xl / 2, self.k["x_grid"])
            self.ye = edges(-yl / 2, yl / 2, ny)
            self.M = geom.skybox_matrix(center_of(self.k, 2), self.d("alpha"))

    # -- conservative overlap
    def hull(self):
        return [self._cell(i, j) for i in range(self.shape[0]) for j in range(self.shape[1])]

    def _cell(self, i, j):
        c = Cell()
        c.index = (i, j)
        f = self.fam
        if f in ("Box2Ring", "Cube2Shell"):
            pts, h = self._sub2(i, j) if f == "Box2Ring" else self._sub3(i, j)
            self._cart(c, pts, h)
        else:
            v, h = self._subsky(i, j)
            ns = self.s["nside"]
            p = [hp.query_disc(ns, v[:, q], float(h[q]), inclusive=True, fact=8) for q in range(v.shape[1])]
            c.pix = np.unique(np.concatenate(p))
            c.inside = True
        return c

    def _sub2(self, i, j):
        r0, r1, p0, p1 = self.re[j], self.re[j + 1], self.pe[i], self.pe[i + 1]
        kp = max(6, int(np.ceil((p1 - p0) / .15)))
        e, g = edges(r0, r1, 6), edges(p0, p1, kp)
        R, P = np.meshgrid(geom.mids(e), geom.mids(g), indexing="ij")
        h = (e[1] - e[0]) / 2 + np.broadcast_to(e[1:, None], R.shape) * (g[1] - g[0]) / 2
        a = P + self.d("phi_shift")
        return [(self.c[0] + R * np.cos(a)).ravel(), (self.c[1] + R * np.sin(a)).ravel()], h.ravel()

    def _sub3(self, i, j):
        ns = self.k["nside"]
        q = 4
        base = hp.ring2nest(ns, j)
        sub = hp.nest2ring(ns * q, base * q * q + np.arange(q * q))
        v = np.array(hp.pix2vec(ns * q, sub))
        rad = hp.max_pixrad(ns * q)
        e = edges(self.re[i], self.re[i + 1], 4)
        rm = geom.mids(e)
        pts = [(self.c[n] + rm[:, None] * v[n][None, :]).ravel() for n in range(3)]
        h = np.broadcast_to(((e[1:] - e[:-1]) / 2 + e[1:] * rad)[:, None], (4, q * q)).ravel()
        return pts, h

    def _cart(self, c, pts, h):
        s = self.s
        names = "xyz"[:len(pts)]
        lo_i, hi_i, dims = [], [], []
        inside = np.ones(len(h), bool)
        hit = np.ones(len(h), bool)
        for p, n in zip(pts, names):
            lo, hi, num = s[n + "min"], s[n + "max"], s["num" + n]
            w = (hi - lo) / num
            t = 1e-9 * (abs(lo) + abs(hi) + np.abs(p).max() + h.max()) + h
            a, b = np.floor((p - t - lo) / w).astype(int), np.floor((p + t - lo) / w).astype(int)
            inside &= (p - t > lo) & (p + t < hi)
            hit &= (b >= 0) & (a < num)
            lo_i.append(np.clip(a, 0, num - 1))
            hi_i.append(np.clip(b, 0, num - 1))
            dims.append(num)
        if len(dims) == 2:
            m = np.zeros((dims[1], dims[0]), bool)      # f[y, x]
            for q in np.nonzero(hit)[0]:
                m[lo_i[1][q]:hi_i[1][q] + 1, lo_i[0][q]:hi_i[0][q] + 1] = True
        else:
            m = np.zeros((dims[1], dims[0], dims[2]), bool)     # f[y, x, z]
            for q in np.nonzero(hit)[0]:
                m[lo_i[1][q]:hi_i[1][q] + 1, lo_i[0][q]:hi_i[0][q] + 1, lo_i[2][q]:hi_i[2][q] + 1] = True
        c.pix = np.nonzero(m.ravel())[0]
        c.inside = bool(inside.all())

    def _subsky(self, i, j):
        if self.fam == "Heal2Ring":
            a0, a1, b0, b1 = self.ae[j], self.ae[j + 1], self.be[i], self.be[i + 1]
            na, nb = max(4, int(np.ceil((a1 - a0) / .15))), max(4, int(np.ceil((b1 - b0) / .2)))
            e, g = edges(a0, a1, na), edges(b0, b1, nb)
            A, B = np.meshgrid(geom.mids(e), geom.mids(g), indexing="ij")
            s = np.sin(np.clip(np.maximum(np.minimum(e[1:], PI / 2), np.where(e[:-1] > PI / 2, e[:-1], 0)), 0, PI))
            h = (e[1] - e[0]) / 2 + np.broadcast_to(s[:, None], A.shape) * (g[1] - g[0]) / 2
            v = geom.sph(B.ravel(), A.ravel())
        else:
            x0, x1, y0, y1 = self.xe[j], self.xe[j + 1], self.ye[i], self.ye[i + 1]
            nx, ny = max(4, int(np.ceil((x1 - x0) / .2))), max(4, int(np.ceil((y1 - y0) / .15)))
            e, g = edges(x0, x1, nx), edges(y0, y1, ny)
            X, Y = np.meshgrid(geom.mids(e), geom.mids(g), indexing="ij")
            cs = np.cos(np.where(g[:-1] > 0, g[:-1], np.where(g[1:] < 0, g[1:], 0.)))
            h = (g[1] - g[0]) / 2 + np.broadcast_to(cs[None, :], X.shape) * (e[1] - e[0]) / 2
            v = geom.sph(X.ravel(), PI / 2 - Y.ravel())
        return self.M @ v, h.ravel() + EPS

    # -- quadrature
    def quad(self, i, j, n=96):
        """pixels of points that sample cell (i, j) evenly (index -1: outside)"""
        f = self.fam
        if f == "Cube2Shell":
            ns = self.k["nside"]
            q = 16
            sub = hp.nest2ring(ns * q, hp.ring2nest(ns, j) * q * q + np.arange(q * q))
            v = np.array(hp.pix2vec(ns * q, sub))
            u = (np.arange(32) + .5) / 32
            r = (self.re[i] ** 3 + u * (self.re[i + 1] ** 3 - self.re[i] ** 3)) ** (1 / 3)
            pts = [(self.c[k] + r[:, None] * v[k][None, :]).ravel() for k in range(3)]
            return self._pix(pts)
        u = (np.arange(n) + .5) / n
        U, V = np.meshgrid(u, u, indexing="ij")
        U, V = U.ravel(), V.ravel()
        if f == "Box2Ring":
            r = np.sqrt(self.re[j] ** 2 + U * (self.re[j + 1] ** 2 - self.re[j] ** 2))
            a = self.pe[i] + V * (self.pe[i + 1] - self.pe[i]) + self.d("phi_shift")
            return self._pix([self.c[0] + r * np.cos(a), self.c[1] + r * np.sin(a)])
        if f == "Heal2Ring":
            ca = np.cos(self.ae[j]) + U * (np.cos(self.ae[j + 1]) - np.cos(self.ae[j]))
            v = geom.sph(self.be[i] + V * (self.be[i + 1] - self.be[i]), np.arccos(np.clip(ca, -1, 1)))
        else:
            sy = np.sin(self.ye[i]) + U * (np.sin(self.ye[i + 1]) - np.sin(self.ye[i]))
            v = geom.sph(self.xe[j] + V * (self.xe[j + 1] - self.xe[j]), PI / 2 - np.arcsin(np.clip(sy, -1, 1)))
        return hp.vec2pix(self.s["nside"], *(self.M @ v))

    def _pix(self, pts):
        s = self.s
        idx = []
        out = np.zeros(len(pts[0]), bool)
        for p, n in zip(pts, "xyz"):
            lo, hi, num = s[n + "min"], s[n + "max"], s["num" + n]
            i = np.floor((p - lo) / (hi - lo) * num).astype(int)
            out |= (i < 0) | (i >= num)
            idx.append(np.clip(i, 0, num - 1))
        if len(idx) == 2:
            k = idx[1] * s["numx"] + idx[0]
        else:
            k = (idx[1] * s["numx"] + idx[0]) * s["numz"] + idx[2]
        return np.where(out, -1, k)
