"""The simulator: decides where magpie code is interrupted and which of its threads runs.

Every event of magpie's own bytecode (function start, call, return from a C call, backward jump, and
line when threads are simulated) passes through `_event`.  There the simulator may raise a fault in
the running call, hand control to another simulated thread, look at the caller's data, or stop a call
that makes no progress.  Calls made by the test program are counted from zero each, so a fault is
"the n-th event of call k" and a schedule is a list of [thread, events] slices: both replay exactly.
"""
import gc
import hashlib
import os
import sys
import threading
import types

from . import build, seams

mon = sys.monitoring
E = mon.events
TOOL = 4
PKG = os.path.join(os.path.abspath(build.REPO), "magpie") + os.sep
BUDGET = 20_000_000         # events of one call before it counts as making no progress
_get_ident = threading.get_ident


class Violation(Exception):
    """The property is broken."""

    def __init__(self, what, msg=""):
        super().__init__("%s: %s" % (what, msg))
        self.what, self.msg = what, msg


class NoProgress(BaseException):
    pass


class SimInterrupt(KeyboardInterrupt):
    pass


class SimMemoryError(MemoryError):
    pass


CTX = {}                    # thread id -> Op
PROBE_ALL = None


class Op:
    """One call into magpie."""
    __slots__ = ("n", "nc", "at", "at_mem", "exc", "fired", "where", "probe", "sched", "tid", "sites", "log")

    def __init__(self):
        self.n = self.nc = 0            # interruptible events, calls
        self.at = self.at_mem = -1
        self.exc = None
        self.fired = 0
        self.where = None
        self.probe = None
        self.sched = None
        self.tid = 0
        self.sites = None
        self.log = None


def _event(code, off, kind):
    c = CTX.get(_get_ident())
    if c is None:
        return
    if c.sched is not None:
        c.sched.point(c, code, off, kind)
    if c.probe is not None:
        c.probe(code, off, kind)
    if kind == "l":         # a place to look and to switch threads, not to interrupt
        return
    n = c.n
    c.n = n + 1
    if c.sites is not None:
        c.sites.append((code, off, kind))
    if kind == "c":
        if c.nc == c.at_mem:
            c.nc += 1
            c.fired += 1
            c.where = (code, off, kind)
            raise c.exc
        c.nc += 1
    if n == c.at:
        c.fired += 1
        c.where = (code, off, kind)
        raise c.exc
    if n > BUDGET:
        raise NoProgress("no progress after %d events in %s" % (n, code.co_qualname))


def _call(code, off, f, a):
    _event(code, off, "c")


def _cret(code, off, f, a):
    _event(code, off, "r")


def _start(code, off):
    _event(code, off, "s")


def _jump(code, off, dest):
    if dest <= off:
        _event(code, off, "j")


def _line(code, line):
    _event(code, line, "l")


CODES = []
FUNCS = []


def attach():
    """Find magpie's code objects and listen to them."""
    mon.use_tool_id(TOOL, "dst")
    mon.register_callback(TOOL, E.CALL, _call)
    mon.register_callback(TOOL, E.C_RETURN, _cret)
    mon.register_callback(TOOL, E.PY_START, _start)
    mon.register_callback(TOOL, E.JUMP, _jump)
    mon.register_callback(TOOL, E.LINE, _line)
    FUNCS[:] = [o for o in gc.get_objects() if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(PKG)]
    seen, todo = set(), [o.__code__ for o in FUNCS]
    while todo:
        c = todo.pop()
        if c in seen and any(c is d for d in CODES):
            continue
        seen.add(c)
        CODES.append(c)
        todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    CODES.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    listen()


_BASE = E.CALL | E.C_RETURN | E.C_RAISE | E.PY_START | E.JUMP
_lines_on = None


def listen(lines=False):
    global _lines_on
    if lines == _lines_on:
        return
    _lines_on = lines
    for c in CODES:
        mon.set_local_events(TOOL, c, _BASE | (E.LINE if lines else 0))


def site(where):
    if where is None:
        return None
    code, off, kind = where
    line = off
    if kind != "l":
        line = code.co_firstlineno
        for a, b, ln in code.co_lines():
            if a <= off < b and ln:
                line = ln
                break
    return "%s:%d:%s" % (os.path.relpath(code.co_filename, build.REPO), line, kind)


# ---------------------------------------------------------------------------------------- locks

class Deadlock(NoProgress):
    pass


class SimLock:
    """A lock created by magpie code: blocking is a scheduling decision, never a real wait."""

    def __init__(self, reentrant):
        self.reentrant, self.owner, self.depth = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.depth += 1
                return True
            if not blocking:
                return False
            c = CTX.get(me)
            if c is not None and c.sched is not None and c.sched.wait_for(c, self):
                continue
            if timeout is not None and timeout >= 0:
                seams.CLOCK.now += timeout
                return False
            raise Deadlock("lock is never released")

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == _get_ident()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def lock_factory(orig):
    reentrant = "RLock" in getattr(orig, "__name__", "")

    def make(*a, **k):
        if sys._getframe(1).f_code.co_filename.startswith(PKG):
            return SimLock(reentrant)
        return orig(*a, **k)
    return make


# -------------------------------------------------------------------------------------- threads

class Sched:
    """Runs real threads one at a time.  plan: list of [k, n]: run the k-th runnable thread (modulo)
    for n events."""

    def __init__(self, slices):
        self.slices = list(slices)
        self.left = 0
        self.threads = []
        self.cur = None
        self.switches = []
        self.hash = hashlib.blake2b(digest_size=8)
        self.main = threading.Lock()
        self.main.acquire()
        self.steps = 0
        self.preempted = 0

    def runnable(self):
        for t in self.threads:
            if t.waiting is not None and t.waiting.owner is None:
                t.waiting = None
        return [t for t in self.threads if not t.done and t.waiting is None]

    def pick(self, rs):
        if self.slices:
            k, n = self.slices.pop(0)
            t = rs[k % len(rs)]
            self.left = n
        else:
            t = self.cur if self.cur in rs else rs[0]
            self.left = 1 << 60
        return t

    def point(self, c, code, off, kind):
        self.steps += 1
        self.left -= 1
        if self.left > 0:
            return
        t = self.pick(self.runnable())
        me = self.cur
        if t is me:
            return
        self.preempted += 1
        self.hash.update(b"%d>%d@%s:%d" % (me.i, t.i, code.co_qualname.encode(), off))
        self.cur = t
        t.baton.release()
        me.baton.acquire()

    def wait_for(self, c, lock):
        """Current thread waits for a lock.  False: it can never be released."""
        me = self.cur
        me.waiting = lock
        rs = self.runnable()
        if not rs:
            me.waiting = None
            return False
        t = self.pick(rs)
        if t is me:
            return True
        self.hash.update(b"%d|%d" % (me.i, t.i))
        self.cur = t
        t.baton.release()
        me.baton.acquire()
        me.waiting = None
        return True

    def finish(self, me):
        me.done = True
        rs = self.runnable()
        if rs:
            self.cur = self.pick(rs)
            self.cur.baton.release()
        else:
            stuck = [t for t in self.threads if not t.done]
            if stuck:       # all wait for locks nobody will release: let them see it
                t = stuck[0]
                t.waiting = None
                self.cur = t
                t.baton.release()
            else:
                self.main.release()

    def run(self, bodies):
        """bodies: callables taking the thread's Op factory."""
        self.threads = [SimThread(self, i, b) for i, b in enumerate(bodies)]
        for t in self.threads:
            t.start()
        self.cur = self.pick(self.runnable())
        self.cur.baton.release()
        self.main.acquire()
        for t in self.threads:
            t.thread.join()


class SimThread:
    def __init__(self, sched, i, body):
        self.sched, self.i, self.body = sched, i, body
        self.done, self.waiting = False, None
        self.baton = seams.ORIG["Lock"]()
        self.baton.acquire()
        self.error = None
        self.thread = threading.Thread(target=self._run, daemon=True)

    def start(self):
        self.thread.start()

    def _run(self):
        self.baton.acquire()
        try:
            from . import boot
            boot.memseam.install()
            self.body(self)
        except BaseException as e:
            self.error = e
        finally:
            self.sched.finish(self)
