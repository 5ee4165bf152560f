"""One simulated run: calls into magpie under faults, threads under a schedule, forks of the state."""
import hashlib
import os
import pickle
import random
import struct
import sys
import traceback
from collections import Counter

import numpy as np

from . import boot, kernel, seams
from .kernel import Violation

# ------------------------------------------------------------------------------------ exceptions


class SimAlarm(Exception):
    """What a timeout handler raises into whatever is running."""


def make_exc(name):
    if name == "interrupt":
        return kernel.SimInterrupt("simulated interrupt")
    if name == "alarm":
        return SimAlarm("simulated timeout handler")
    if name == "memory":
        return kernel.SimMemoryError("simulated out of memory")
    if name == "epipe":
        return BrokenPipeError(32, "simulated broken pipe")
    if name == "enospc":
        return OSError(28, "simulated full device")
    if name == "eio":
        return OSError(5, "simulated I/O error")
    if name == "value":
        return ValueError("simulated closed stream")
    raise KeyError(name)


FAULTS = ("interrupt", "alarm", "memory", "alloc", "stdout")

# -------------------------------------------------------------------------------- canonical values


def canon(v):
    """A hashable, exactly comparable picture of a value (all NaNs alike)."""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("o", v.shape, tuple(canon(x) for x in v.ravel().tolist()))
        a = v
        if a.dtype.kind == "f" and a.size:
            a = np.where(np.isnan(a), np.nan, a)
        return ("a", a.dtype.str, a.shape, a.tobytes())
    if isinstance(v, (list, tuple)):
        return ("l", tuple(canon(x) for x in v))
    if isinstance(v, dict):
        return ("d", tuple((repr(k), canon(v[k])) for k in sorted(v, key=repr)))
    if isinstance(v, np.generic):
        return canon(np.asarray(v))
    if isinstance(v, float):
        return ("f", "nan" if v != v else v.hex())
    if isinstance(v, (bool, int, str, bytes, type(None))):
        return ("p", type(v).__name__, v)
    return ("r", type(v).__name__)


def digest(v):
    return hashlib.blake2b(repr(canon(v)).encode(), digest_size=12).hexdigest()


def same(a, b):
    return canon(a) == canon(b)


def brief(v, n=300):
    with np.printoptions(precision=17, threshold=12, edgeitems=3):
        s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def first_difference(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "shape %s against %s" % (a.shape, b.shape)
    with np.errstate(all="ignore"):
        d = ~((a == b) | ((a != a) & (b != b)))
    if not d.any():
        return "types %s against %s" % (a.dtype, b.dtype)
    i = tuple(int(k) for k in np.argwhere(d)[0]) if d.ndim else ()
    return "%d of %d values differ, first at %s: %r against %r" % (d.sum(), d.size, i, a[i].item(), b[i].item())


class Outcome:
    __slots__ = ("ok", "value", "exc", "n", "nc", "fired", "where", "writes", "allocs", "sites", "out", "kind",
                 "injected", "kept")

    def pic(self):
        """what the caller saw"""
        return ("ok", canon(self.value)) if self.ok else ("exc", type(self.exc).__name__)

    def __getstate__(self):
        return {k: getattr(self, k, None) for k in ("ok", "value", "exc", "n", "nc", "fired", "writes", "allocs",
                                                    "sites", "out", "kind", "kept")}

    def __setstate__(self, d):
        for k, v in d.items():
            setattr(self, k, v)
        self.where = self.injected = None

    def describe(self):
        return "returned " + brief(self.value) if self.ok else "raised %r" % (self.exc,)


def send(fd, obj):
    b = pickle.dumps(obj, protocol=5)
    b = struct.pack("<Q", len(b)) + b
    while b:
        k = os.write(fd, b)
        b = b[k:]


def recv(fd):
    def get(n):
        parts = []
        while n:
            x = os.read(fd, min(n, 1 << 20))
            if not x:
                raise EOFError
            parts.append(x)
            n -= len(x)
        return b"".join(parts)
    (n,) = struct.unpack("<Q", get(8))
    return pickle.loads(get(n))


class ChildDied(Exception):
    def __init__(self, status):
        super().__init__("simulated process ended with status %d" % status)
        self.status = status


def fork_call(fn):
    """Run fn() in a fork of this process, as it is now, and return its (pickled) result."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            try:
                res = ("ok", fn())
            except Violation as e:
                res = ("violation", e.what, e.msg)
            except BaseException as e:
                res = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
            send(w, res)
            code = 0
        except BaseException:
            code = 4
        finally:
            os._exit(code)
    os.close(w)
    try:
        res = recv(r)
    except EOFError:
        res = None
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if res is None:
        raise ChildDied(st)
    if res[0] == "violation":
        raise Violation(res[1], res[2])
    if res[0] == "error":
        raise RuntimeError("in forked call: " + res[1])
    return res[1]


PATTERNS = {
    "nan": 0x7FF8000000000000, "ones": 0xFFFFFFFFFFFFFFFF, "huge": 0x7FE0000000000000, "one": 0x3FF0000000000000,
    "small": 0x0000000000000003, "int": 0x0000000100000002, "neg": 0xC059000000000000, "zero": 0,
}


class Sim:
    """env: {"poison": name, "perturb": byte, "clock": [start, step], "stream": [mode, seed, param]}"""

    def __init__(self, env=None, request=None):
        self.env = env or {}
        self.request = request
        self.stats = Counter()
        self.notes = set()
        self.h = hashlib.blake2b(digest_size=12)
        self.trace = []
        self.time = 0.0

    # -- environment
    def begin(self):
        e = self.env
        boot.memseam.install()
        pat = e.get("poison")
        boot.memseam.set_poison(1 if pat else 0, PATTERNS.get(pat, 0), int(e.get("perturb", 0)))
        c = seams.CLOCK
        c.now, c.step = e.get("clock", [1.7e9, 1e-3])
        c.on, c.advanced = True, 0.0
        seams.ENTROPY.base, seams.ENTROPY.k = e.get("entropy", 0), 0
        seams.RANDOM.set(*e.get("stream", ["real", 0, 0.0]))
        np.random.seed(int(e.get("seed", 1)))
        random.seed(int(e.get("entropy", 0)))

    def finish(self):
        boot.memseam.set_poison(0, 0, 0)
        self.time = seams.CLOCK.advanced
        seams.CLOCK.on = False

    # -- records
    def log(self, *x):
        self.h.update(repr(x).encode())
        if len(self.trace) < 400:
            self.trace.append([str(y)[:160] for y in x])

    def note(self, *key):
        """A state or situation reached (measured as the number of distinct ones)."""
        self.notes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    # -- calls
    def call(self, fn, *a, _fault=None, _probe=None, _sites=False, _stdout=None, **k):
        """Call fn.  _fault: {"kind", "n", "exc"} with n resolved.  Returns an Outcome."""
        op = kernel.Op()
        out = _stdout or seams.SimStdout()
        mem_at = -1
        f = _fault
        if f:
            kd = f["kind"]
            if kd in ("interrupt", "alarm"):
                op.at, op.exc = f["n"], make_exc(kd)
            elif kd == "memory":
                op.at_mem, op.exc = f["n"], make_exc(kd)
            elif kd == "alloc":
                mem_at = f["n"]
            elif kd == "stdout":
                out.fail_at, out.exc, out.sticky = f["n"], make_exc(f["exc"]), bool(f.get("sticky"))
        op.probe = _probe
        if _sites:
            op.sites = []
        o = Outcome()
        o.value = o.exc = None
        old = sys.stdout
        sys.stdout = out
        me = kernel._get_ident()
        kernel.CTX[me] = op
        boot.memseam.start(mem_at)
        try:
            o.value = fn(*a, **k)
            o.ok = True
        except kernel.NoProgress as e:
            kernel.CTX.pop(me, None)
            boot.memseam.stop()
            sys.stdout = old
            raise Violation("no-progress", str(e))
        except BaseException as e:
            o.ok, o.exc = False, e
            e.__traceback__ = None
            e.__context__ = None
        finally:
            kernel.CTX.pop(me, None)
            o.allocs, memfired = boot.memseam.stop()
            o.kept = sys.stdout is out      # the call leaves the caller's output stream in place
            sys.stdout = old
        o.n, o.nc, o.writes = op.n, op.nc, out.ops
        o.fired = op.fired + memfired + (out.fired if f and f["kind"] == "stdout" else 0)
        o.where = kernel.site(op.where)
        o.sites = op.sites
        o.out = out
        o.kind = f["kind"] if f else None
        o.injected = op.exc if op.exc is not None else out.exc if f and f["kind"] == "stdout" else None
        self.stats["calls"] += 1
        self.stats["events"] += op.n
        if f:
            self.stats["faults armed"] += 1
            if o.fired:
                name = f["kind"] if f["kind"] != "stdout" else "stdout:" + f["exc"]
                self.stats["fault " + name] += 1
                self.note("fault", name, o.where or f.get("n"))
        return o

    def profile(self, fn):
        """The fault-free outcome of fn() from the present state, seen in a fork of it."""
        def go():
            o = self.call(fn, _sites=True)
            sizes = boot.memseam.sizes()
            s = o.sites
            ids, table = [], {}
            for i, x in enumerate(s):
                ids.append(table.setdefault((id(x[0]), x[1], x[2]), len(table)))
            kinds = "".join(x[2] for x in s)
            o.sites = (ids, kinds, sizes)
            o.out = o.out.chunks
            if not o.ok:
                try:
                    pickle.dumps(o.exc)
                except Exception:
                    o.exc = RuntimeError(repr(o.exc))
            return o
        return fork_call(go)

    def resolve(self, f, p):
        """Position of fault f in a call whose fault-free profile is p."""
        kd = f["kind"]
        if "n" in f:
            return f
        f = dict(f)
        u, u2, mode = f["u"], f.get("u2", 0.5), f.get("mode", "uniform")
        if kd == "alloc":
            total = p.allocs
        elif kd == "stdout":
            total = p.writes
        elif kd == "memory":
            total = p.nc
        else:
            total = p.n
        if total <= 0:
            return None
        if mode == "late":
            n = max(0, total - 1 - int(u * min(total, 12)))
        elif mode == "early":
            n = int(u * min(total, 12))
        elif mode == "site" and kd in ("interrupt", "alarm", "memory") and p.sites[0]:
            ids, kinds = p.sites[:2]
            if kd == "memory":
                pos = [i for i in range(len(ids)) if kinds[i] == "c"]
            else:
                pos = list(range(len(ids)))
            where = {}
            for k, i in enumerate(pos):
                where.setdefault(ids[i], []).append(k)
            ks = sorted(where)
            occ = where[ks[int(u * len(ks))]]
            n = occ[int(u2 * len(occ))] if u2 < .6 else (occ[-1] if u2 < .8 else occ[0])
        elif mode == "site" and kd == "alloc" and p.sites and len(p.sites) > 2:      # every size of buffer alike, the large ones first
            sizes = np.frombuffer(p.sites[2], np.int64)
            ks = np.unique(sizes)
            occ = np.flatnonzero(sizes == ks[int(np.sqrt(u) * len(ks))])
            n = int(occ[int(u2 * len(occ))])
        else:
            n = int(u * total)
        f["n"] = min(n, total - 1)
        return f

    def faulty(self, fn, fault):
        """(outcome with the fault, fault-free outcome from the same state, fault as resolved)"""
        p = self.profile(fn)
        f = self.resolve(fault, p)
        if f is None:
            return self.call(fn), p, None
        o = self.call(fn, _fault=f)
        self.log("fault", f["kind"], f["n"], o.where, o.fired, o.ok, type(o.exc).__name__)
        return o, p, f

    def pristine(self, name, *args):
        """A named function of the world, run in a fresh process where nothing was ever called."""
        self.stats["pristine references"] += 1
        return self.request(name, args)

    # -- threads
    def threads(self, bodies, slices, lines=True):
        """bodies: list of functions of a Thread handle; each runs calls through handle.call(fn)."""
        kernel.listen(lines)
        s = kernel.Sched(slices)
        handles = [ThreadHandle(self, s, i) for i in range(len(bodies))]
        old = sys.stdout
        sys.stdout = seams.SimStdout()

        def wrap(b, h):
            return lambda t: b(h)
        try:
            s.run([wrap(b, h) for b, h in zip(bodies, handles)])
        finally:
            sys.stdout = old
            kernel.CTX.clear()
            kernel.listen(False)
        self.stats["thread switches"] += s.preempted
        self.stats["events"] += s.steps
        self.note("interleaving", s.hash.hexdigest())
        self.log("interleaving", s.hash.hexdigest(), s.steps)
        for t in s.threads:
            if t.error is not None:
                if isinstance(t.error, (kernel.NoProgress,)):
                    raise Violation("no-progress", str(t.error))
                raise t.error
        return s


class ThreadHandle:
    def __init__(self, sim, sched, i):
        self.sim, self.sched, self.i = sim, sched, i

    def call(self, fn, *a, _fault=None, **k):
        op = kernel.Op()
        op.sched = self.sched
        op.tid = self.i
        if _fault:
            if _fault["kind"] == "memory":
                op.at_mem = _fault["n"]
            else:
                op.at = _fault["n"]
            op.exc = make_exc(_fault["kind"])
        o = Outcome()
        o.value = o.exc = None
        me = kernel._get_ident()
        kernel.CTX[me] = op
        try:
            o.value = fn(*a, **k)
            o.ok = True
        except kernel.NoProgress:
            raise
        except BaseException as e:
            o.ok, o.exc = False, e
            e.__traceback__ = None
            e.__context__ = None
        finally:
            kernel.CTX.pop(me, None)
        o.n, o.nc, o.fired = op.n, op.nc, op.fired
        o.where = kernel.site(op.where)
        self.sim.stats["calls"] += 1
        if _fault:
            self.sim.stats["faults armed"] += 1
            if o.fired:
                self.sim.stats["fault " + _fault["kind"]] += 1
                self.sim.note("fault", _fault["kind"], o.where)
        return o
