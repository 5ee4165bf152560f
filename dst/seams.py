"""Seams: the sources of nondeterminism magpie can see, replaced by ones the simulator decides.

random numbers   numpy.random.* draw functions (module attributes, wrapped before magpie is imported)
entropy          numpy.random.default_rng()/RandomState()/seed() without a seed, os.urandom
clock            time.*
output           sys.stdout, file descriptor 1
memory           memseam (numpy allocator, malloc fill)
locks            threading.Lock/RLock created by magpie code
"""
import os
import sys
import threading
import time

import numpy as np

ORIG = {}
EPS = 2.0 ** -53


class RandomSeam:
    """mode 'real': numpy's generator.  Other modes: legal streams of uniform doubles k * 2**-53."""
    mode = "real"
    rng = None          # prng.Rng used by the adversarial modes
    param = 0.0
    draws = 0

    def set(self, mode, seed=0, param=0.0):
        from .prng import Rng
        self.mode, self.param, self.rng, self.draws = mode, param, Rng("stream", mode, seed), 0

    def one(self):
        r, m = self.rng, self.mode
        if m == "zero":
            return 0.0
        if m == "max":
            return 1.0 - EPS
        if m == "const":
            return self.param
        if m == "few":      # few distinct values
            return int(r.u() * 4) / 4.0
        if m == "edges":
            c = r.int(0, 9)
            if c == 0:
                return 0.0
            if c == 1:
                return 1.0 - EPS
            if c == 2:
                return EPS
            if c == 3:
                return 0.5
            if c == 4:
                return 0.5 + EPS
            if c == 5:
                return 0.5 - EPS
            if c == 6:
                return r.int(0, 64) / 64.0 if r.chance(.98) else 0.0
            return r.u()
        if m == "alt":      # alternating extremes
            return 0.0 if self.draws % 2 else 1.0 - EPS
        if m == "ramp":
            return ((self.draws * 0.6180339887498949) % 1.0)
        return r.u()

    def sample(self, size=None):
        if self.mode == "real":
            return ORIG["random_sample"](size)
        if size is None:
            self.draws += 1
            v = self.one()
            return min(v, 1.0 - EPS)
        shape = (size,) if np.isscalar(size) else tuple(size)
        n = int(np.prod(shape)) if shape else 1
        out = np.zeros(n)
        for i in range(n):
            self.draws += 1
            out[i] = min(self.one(), 1.0 - EPS)
        return out.reshape(shape)


RANDOM = RandomSeam()


class Entropy:
    k = 0

    def next(self):
        from .prng import Rng
        self.k += 1
        return Rng("entropy", self.k, self.base).bits()
    base = 0


ENTROPY = Entropy()


class Clock:
    on = False
    now = 1.7e9
    step = 1e-3
    advanced = 0.0

    def read(self):
        self.now += self.step
        self.advanced += abs(self.step)
        return self.now


CLOCK = Clock()


def install():
    R = np.random
    for n in ("random_sample", "random", "rand", "ranf", "sample", "uniform", "seed", "default_rng", "RandomState"):
        ORIG[n] = getattr(R, n)

    def random_sample(size=None):
        return RANDOM.sample(size)

    def rand(*dims):
        return RANDOM.sample(tuple(dims) if dims else None)

    def uniform(low=0.0, high=1.0, size=None):
        if RANDOM.mode == "real":
            return ORIG["uniform"](low, high, size)
        if size is None and not np.isscalar(low):
            size = np.shape(low)
        return low + (high - low) * RANDOM.sample(size)

    def seed(s=None):
        if s is None:
            s = ENTROPY.next() & 0xFFFFFFFF
        return ORIG["seed"](s)

    def default_rng(s=None):
        return ORIG["default_rng"](ENTROPY.next() if s is None else s)

    class RandomState(ORIG["RandomState"]):
        def __init__(self, seed=None):
            super().__init__(ENTROPY.next() & 0xFFFFFFFF if seed is None else seed)

    for n in ("random_sample", "random", "ranf", "sample"):
        setattr(R, n, random_sample)
    R.rand, R.uniform, R.seed, R.default_rng = rand, uniform, seed, default_rng
    R.RandomState = RandomState

    ORIG["urandom"] = os.urandom
    ORIG["Lock"], ORIG["RLock"] = threading.Lock, threading.RLock
    for n in ("time", "monotonic", "perf_counter", "process_time"):
        ORIG[n] = getattr(time, n)

        def f(_o=ORIG[n]):
            return CLOCK.read() if CLOCK.on else _o()
        setattr(time, n, f)
    for n in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        ORIG[n] = getattr(time, n)

        def g(_o=ORIG[n]):
            return int(CLOCK.read() * 1e9) if CLOCK.on else _o()
        setattr(time, n, g)
    ORIG["sleep"] = time.sleep

    def sleep(s):
        if CLOCK.on:
            CLOCK.now += s
            CLOCK.advanced += s
        else:
            ORIG["sleep"](s)
    time.sleep = sleep
    from . import kernel
    threading.Lock = kernel.lock_factory(ORIG["Lock"])
    threading.RLock = kernel.lock_factory(ORIG["RLock"])


def magpie_loaded():
    pass


def real_time():
    return ORIG["monotonic"]()


class SimStdout:
    """An output stream whose n-th operation (write or flush) fails with a chosen error."""
    encoding = "utf-8"
    errors = "strict"
    closed = False

    def __init__(self, keep=True):
        self.chunks, self.ops, self.fail_at, self.exc, self.fired, self.keep = [], 0, -1, None, 0, keep
        self.sticky = False

    def _op(self):
        n = self.ops
        self.ops += 1
        if self.fail_at >= 0 and (n == self.fail_at or (self.sticky and n > self.fail_at)):
            self.fired += 1
            raise self.exc

    def write(self, s):
        self._op()
        if self.keep:
            self.chunks.append(str(s))
        return len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        self._op()

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise OSError(25, "simulated stream has no file descriptor")

    def text(self):
        return "".join(self.chunks)
