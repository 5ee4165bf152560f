"""Goodness-of-fit tests with p-values usable far into the tail."""
import numpy as np
from scipy import special

P = 1e-12


def chi2_p(counts, expected):
    c = np.asarray(counts, float).ravel()
    e = np.asarray(expected, float).ravel()
    x = ((c - e) ** 2 / e).sum()
    return float(special.gammaincc((c.size - 1) / 2., x / 2.)), float(x), c.size - 1


def ks_p(u):
    """Kolmogorov-Smirnov against uniform on [0, 1], by the Dvoretzky-Kiefer-Wolfowitz bound (valid for every n)"""
    u = np.sort(u)
    n = u.size
    i = np.arange(1, n + 1)
    d = max((i / n - u).max(), (u - (i - 1) / n).max())
    return float(min(1., 2. * np.exp(-2. * n * d * d))), float(d)


def cells(u, m):
    return np.clip((np.asarray(u) * m).astype(np.int64), 0, m - 1)


def joint_p(cols, m):
    """chi-squared of the joint cells, m per axis"""
    k = np.zeros(len(cols[0]), np.int64)
    for c in cols:
        k = k * m + cells(c, m)
    n = m ** len(cols)
    return chi2_p(np.bincount(k, minlength=n), np.full(n, len(k) / n))


def divisions(n, dim):
    """cells per axis keeping at least 40 expected per cell"""
    m = int((n / 40.) ** (1. / dim))
    return max(2, min(8 if dim > 1 else 32, m))


def binom_p(k, n, p):
    """two-sided tail bound (Chernoff) for a binomial count"""
    if p <= 0:
        return 0. if k > 0 else 1.
    if p >= 1:
        return 0. if k < n else 1.
    f = k / n

    def t(a, b):
        return 0. if a == 0 else a * np.log(a / b)
    return float(min(1., 2. * np.exp(-n * (t(f, p) + t(1 - f, 1 - p)))))


def mean_p(x, mean, lo, hi):
    """two-sided Hoeffding bound for the mean of values in [lo, hi]"""
    x = np.asarray(x, float)
    if hi <= lo:
        return 1. if abs(x.mean() - mean) < 1e-9 * max(1, abs(mean)) else 0.
    return float(min(1., 2. * np.exp(-2. * x.size * ((x.mean() - mean) / (hi - lo)) ** 2)))
