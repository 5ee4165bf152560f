"""Runs plans in forked processes, searches over seeds, minimises failures, writes evidence."""
import copy
import gc
import hashlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback
from collections import Counter

from . import boot, seams, sim as simmod
from .kernel import Violation
from .prng import Rng

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 90.0


def now():
    return seams.real_time()


# --------------------------------------------------------------------------------- a single run

def _child(world, plan, rfd, wfd):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

    def request(name, args):
        simmod.send(wfd, ("req", name, args))
        kind, val = simmod.recv(rfd)
        if kind == "violation":
            raise Violation(*val)
        if kind == "error":
            raise RuntimeError("pristine reference: " + val)
        return val

    s = simmod.Sim(plan.get("env"), request)
    res = {"status": "ok", "what": None, "msg": ""}
    try:
        s.begin()
        world.execute(plan, s)
    except Violation as e:
        res.update(status="violation", what=e.what, msg=e.msg)
    except simmod.ChildDied as e:
        res.update(status="crash", what="crash", msg=str(e))
    except BaseException as e:
        res.update(status="error", what=type(e).__name__,
                   msg="".join(traceback.format_exception(e))[-3000:])
    try:
        s.finish()
    except BaseException:
        pass
    s.log("end", res["status"], res["what"])
    res.update(stats=dict(s.stats), notes=s.notes, digest=s.h.hexdigest(), time=s.time,
               nontrivial=bool(getattr(s, "nontrivial", False)))
    if res["status"] != "ok":
        res.update(plan=plan, trace=s.trace)
    simmod.send(wfd, ("done", res))


def _reference(world, env, name, args):
    def go():
        s = simmod.Sim(env, None)
        s.begin()
        return world.refs[name](s, *args)
    try:
        return ("ok", simmod.fork_call(go))
    except Violation as e:
        return ("violation", (e.what, e.msg))
    except (RuntimeError, simmod.ChildDied) as e:
        return ("error", str(e))


def limit(world):
    return getattr(world, "timeout", RUN_TIMEOUT)


def run_plan(world, plan, timeout=None):
    """Run one plan in a fork of this (pristine) process."""
    timeout = timeout or limit(world)
    r1, w1 = os.pipe()      # child -> here
    r2, w2 = os.pipe()      # here -> child
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r1)
            os.close(w2)
            os.setpgid(0, 0)
            _child(world, plan, r2, w1)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w1)
    os.close(r2)
    end = now() + timeout
    res = None
    try:
        while True:
            left = end - now()
            if left <= 0 or not select.select([r1], [], [], left)[0]:
                res = {"status": "timeout", "what": "no-progress", "msg": "run did not end within %g s" % timeout}
                break
            try:
                m = simmod.recv(r1)
            except EOFError:
                break
            if m[0] == "done":
                res = m[1]
                break
            rep = _reference(world, plan.get("env"), m[1], m[2])
            try:
                simmod.send(w2, rep)
            except BrokenPipeError:
                break
    finally:
        os.close(r1)
        os.close(w2)
        if res is None or res["status"] in ("timeout", "crash"):
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        _, st = os.waitpid(pid, 0)
    if res is None:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
        res = {"status": "crash", "what": "crash", "msg": "simulated process ended with status %d" % st, "signal": sig}
    res.setdefault("stats", {})
    res.setdefault("notes", set())
    res.setdefault("digest", "")
    res.setdefault("time", 0.0)
    res.setdefault("nontrivial", False)
    res.setdefault("plan", plan if res["status"] != "ok" else None)
    return res


def judged(world, plan, timeout=None):
    """run_plan, with crashes and hangs confirmed before they count as violations."""
    timeout = timeout or limit(world)
    res = run_plan(world, copy.deepcopy(plan), timeout)
    if res["status"] == "crash":
        again = run_plan(world, copy.deepcopy(plan), timeout)
        if again["status"] == "crash":
            calm = without_alloc(plan)
            if calm is not None and run_plan(world, calm, timeout)["status"] != "crash":
                again.update(status="ok", what=None)
                again["stats"] = {"runs set aside: a host library crashed on a failed allocation": 1}
                return again
            res.update(status="violation", msg="the process dies: " + again["msg"])
        else:
            return again
    elif res["status"] == "timeout":
        again = run_plan(world, copy.deepcopy(plan), timeout * 1.5)
        if again["status"] == "timeout":
            res.update(status="violation", msg="no progress: " + again["msg"])
        else:
            return again
    return res


def without_alloc(plan):
    found = [0]

    def walk(x):
        if isinstance(x, dict):
            if x.get("kind") == "alloc":
                found[0] += 1
                return None
            return {k: walk(v) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return x
    p = walk(plan)
    return p if found[0] else None


def make_plan(world, seed, index, tier):
    rng = Rng(world.prop, seed, index)
    plan = world.plan(rng, tier, index)
    return json.loads(json.dumps(plan))     # plans are data


# -------------------------------------------------------------------------------------- search

def _worker(world, seed, tier, lo, hi, w, W, fd, stop_at, cap, go_on):
    end = now() + cap
    gc.collect()
    gc.freeze()                 # the garbage collector of a child leaves these pages alone
    for i in range(lo + w, hi, W):
        if now() > end or i > stop_at.value():
            break
        plan = None
        try:
            plan = make_plan(world, seed, i, tier)
            res = judged(world, plan)
        except BaseException:
            res = {"status": "error", "what": "harness", "msg": traceback.format_exc(), "stats": {}, "notes": set(),
                   "digest": "", "time": 0.0, "nontrivial": False, "plan": plan}
        res["index"] = i
        simmod.send(fd, res)
        if res["status"] == "violation" and not go_on:
            break
    simmod.send(fd, None)


class Shared:
    """lowest violating index, visible to all workers"""

    def __init__(self):
        import mmap
        self.m = mmap.mmap(-1, 8)
        self.set(1 << 60)

    def set(self, v):
        self.m[:8] = int(v).to_bytes(8, "little")

    def value(self):
        return int.from_bytes(self.m[:8], "little")


def search(world, seed, tier, runs, cap, workers=None, lo=0, on_result=None, go_on=False):
    W = workers or min(8, os.cpu_count() or 1)
    stop = Shared()
    pipes = {}
    pids = []
    sys.stdout.flush()
    for w in range(W):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for x in pipes:
                    os.close(x)
                _worker(world, seed, tier, lo, lo + runs, w, W, wr, stop, cap, go_on)
            except BaseException:
                traceback.print_exc()
                code = 5
            finally:
                os._exit(code)
        os.close(wr)
        pipes[r] = w
        pids.append(pid)
    agg = {"runs": 0, "stats": Counter(), "notes": set(), "digests": set(), "nontrivial": set(), "time": 0.0,
           "violations": [], "errors": [], "all": {}, "lost": 0}
    open_ = dict(pipes)
    while open_:
        for r in select.select(list(open_), [], [])[0]:
            try:
                res = simmod.recv(r)
            except EOFError:
                agg["lost"] += 1
                agg["errors"].append({"index": -1, "status": "error", "what": "worker died", "msg": ""})
                res = None
            if res is None:
                os.close(r)
                del open_[r]
                continue
            agg["runs"] += 1
            agg["stats"].update(res["stats"])
            agg["notes"] |= res["notes"]
            agg["digests"].add(res["digest"])
            agg["all"][res["index"]] = res["digest"]
            if res["nontrivial"]:
                agg["nontrivial"].add(res["digest"])
            agg["time"] += res["time"]
            if on_result:
                on_result(res)
            if res["status"] == "violation":
                agg["violations"].append(res)
                if not go_on:
                    stop.set(min(stop.value(), res["index"]))
            elif res["status"] in ("error", "crash", "timeout"):
                agg["errors"].append(res)
    for p in pids:
        os.waitpid(p, 0)
    agg["violations"].sort(key=lambda x: x["index"])
    return agg


# ------------------------------------------------------------------------------------- shrinking

def generic_shrinks(plan):
    """Smaller plans, most drastic first."""
    ops = plan.get("ops")
    if isinstance(ops, list):
        k = len(ops) // 2
        while k >= 1:
            for i in range(0, len(ops), k):
                if len(ops) - len(ops[i:i + k]) >= 1:
                    yield dict(plan, ops=ops[:i] + ops[i + k:])
            k //= 2
        for i, o in enumerate(ops):
            if isinstance(o, dict) and o.get("fault"):
                yield dict(plan, ops=ops[:i] + [dict(o, fault=None)] + ops[i + 1:])
    th = plan.get("threads")
    if isinstance(th, list):
        for i in range(len(th)):
            if len(th) > 1:
                yield dict(plan, threads=th[:i] + th[i + 1:])
            if isinstance(th[i], list) and len(th[i]) > 1:
                for j in range(len(th[i])):
                    yield dict(plan, threads=th[:i] + [th[i][:j] + th[i][j + 1:]] + th[i + 1:])
    sl = plan.get("slices")
    if isinstance(sl, list) and sl:
        k = len(sl)
        while k >= 1:
            for i in range(0, len(sl), k):
                yield dict(plan, slices=sl[:i] + sl[i + k:])
            k //= 2
    env = plan.get("env") or {}
    if env.get("poison"):
        yield dict(plan, env=dict(env, poison=None, perturb=0))
    if env.get("stream", ["real"])[0] != "real":
        yield dict(plan, env=dict(env, stream=["real", 0, 0.0]))


def shrink(world, res, budget=40.0, tries=250):
    plan, what = res["plan"], res["what"]
    end = now() + budget
    n = 0
    best = res
    progress = True
    while progress and n < tries and now() < end:
        progress = False
        for cand in world.shrinks(plan):
            if n >= tries or now() > end:
                break
            n += 1
            cand = json.loads(json.dumps(cand))
            r = run_plan(world, cand, min(limit(world), max(end - now(), 5.) + 5.))
            if r["status"] == "violation" and r["what"] == what:
                plan, best, progress = r["plan"], r, True
                break
    return best, n


# -------------------------------------------------------------------------------------- reports

def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def save_replay(world, res, seed, tier, extra):
    body = {"property": world.prop, "what": res["what"], "message": res["msg"], "seed": seed, "tier": tier,
            "index": res.get("index"), "plan": res["plan"], "trace": res.get("trace", []), "digest": res["digest"]}
    body.update(extra)
    key = hashlib.sha256(json.dumps([world.prop, res["what"], res["plan"]], sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(ROOT, "replays", "%s-%s.json" % (world.prop, key))
    write_json(path, body)
    return path
