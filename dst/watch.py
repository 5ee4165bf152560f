"""Watches data of the caller: bytes of arrays (and of the memory they are views of), lists, default values."""

import numpy as np

from . import kernel


def root(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def freeze(v, depth=0):
    """A comparable picture of a value as it is now."""
    if isinstance(v, np.ndarray):
        r = root(v)
        if r.dtype == object:
            return ("o", v.shape, tuple(freeze(x, depth + 1) for x in r.ravel().tolist()))
        return ("a", v.shape, v.strides, v.dtype.str, v.flags.writeable, r.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x, depth + 1) for x in v)) if depth < 4 else "..."
    if isinstance(v, dict):
        return ("d", tuple((repr(k), freeze(v[k], depth + 1)) for k in v)) if depth < 4 else "..."
    if isinstance(v, (float, int, str, bool, type(None), np.generic)):
        return repr(v)
    return type(v).__name__


def mutable(v):
    return isinstance(v, (np.ndarray, list, dict)) or isinstance(v, tuple) and any(mutable(x) for x in v)


def difference(a, b):
    if a[0] == "a" and b[0] == "a":
        if a[:5] != b[:5]:
            return "its shape, type or flags become %s from %s" % (b[1:5], a[1:5])
        n = np.dtype(a[3]).itemsize
        x, y = np.frombuffer(a[5], np.uint8), np.frombuffer(b[5], np.uint8)
        if x.shape != y.shape:
            return "its size changes"
        k = int(np.argwhere(x != y)[0][0]) // n
        u, v = np.frombuffer(a[5], a[3]), np.frombuffer(b[5], b[3])
        return "element %d of its memory becomes %r from %r (%d bytes differ)" % (k, v[k].item(), u[k].item(), (x != y).sum())
    return "%s becomes %s" % (str(a)[:200], str(b)[:200])


class Watcher:
    """A set of named values that must not change."""

    def __init__(self):
        self.items = []         # (name, value, picture)
        self.ids = set()

    def add(self, name, v):
        if mutable(v) and id(v) not in self.ids:
            self.ids.add(id(v))
            self.items.append((name, v, freeze(v)))

    def changed(self, items=None):
        for name, v, s in self.items if items is None else items:
            t = freeze(v)
            if t != s:
                return name, difference(s, t)
        return None

    def probe(self, found, items=None, full=4000):
        """Looks at every event (every 13th after many)."""
        items = self.items if items is None else items
        k = [0]

        def look(code, off, kind):
            k[0] += 1
            if found or (k[0] > full and k[0] % 13):
                return
            for name, v, s in items:
                if freeze(v) != s:
                    found.append((name, difference(s, freeze(v)), kernel.site((code, off, kind))))
                    return
        return look


def defaults():
    """Default argument values of all of magpie's functions."""
    w = Watcher()
    for f in sorted(kernel.FUNCS, key=lambda f: (f.__code__.co_filename, f.__code__.co_firstlineno)):
        for v in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()):
            w.add("a default argument value of " + f.__qualname__, v)
    return w
