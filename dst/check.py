"""python -m dst.check C03 [--tier quick|thorough] [--replay FILE] [--seed N] [--runs N]"""
import argparse
import importlib
import json
import os
import re
import subprocess
import sys
import time

T0 = time.time()


def known_findings(prop):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    try:
        with open(path) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--lo", type=int, default=0)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--digests", help="write every run's digest to this file")
    ap.add_argument("--index", type=int, help="run only this index, verbosely")
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--cap", type=float)
    a = ap.parse_args()
    print("seed %d" % a.seed, flush=True)
    from . import boot, build
    try:
        boot.load()
    except build.BuildError as e:
        print("HARNESS-ERROR build: %s" % e)
        return 2
    from . import kernel, runner
    kernel.attach()
    world = importlib.import_module("dst.worlds." + a.prop.lower()).WORLD
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        res = runner.judged(world, rep["plan"])
        print("replay: %s %s\n%s" % (res["status"], res["what"], res["msg"]))
        print("digest %s (recorded %s)" % (res["digest"], rep.get("digest")))
        if res["status"] == "violation":
            print("VIOLATION property=%s replay=%s" % (world.prop, a.replay))
            return 1
        return 0 if res["status"] == "ok" else 2
    if a.index is not None:
        plan = runner.make_plan(world, a.seed, a.index, a.tier)
        print(json.dumps(plan)[:3000])
        res = runner.judged(world, plan)
        print({k: v for k, v in res.items() if k not in ("plan", "notes")})
        print(res["msg"])
        return 0
    runs = a.runs or world.runs[a.tier]
    cap = a.cap or world.cap[a.tier]
    samples = []

    def on_result(res):
        if a.keep_going and res["status"] != "ok":
            print(res["index"], res["status"], res["what"], res["msg"][:600], flush=True)

    t = runner.now()
    agg = runner.search(world, a.seed, a.tier, runs, cap, a.workers, a.lo, on_result, a.keep_going)
    wall_search = runner.now() - t
    if a.digests:
        with open(a.digests, "w") as f:
            for i in sorted(agg["all"]):
                f.write("%d %s\n" % (i, agg["all"][i]))
    for i in sorted(agg["all"])[:3]:
        p = json.dumps(runner.make_plan(world, a.seed, i, a.tier))
        samples.append({"index": i, "seed": a.seed, "plan": p if len(p) < 1500 else p[:1500] + "..."})
    rc = 0
    found = 0
    listed = known_findings(world.prop)
    for k in listed:
        if k.get("status") == "finding":
            print("KNOWN-FINDING: property=%s %s" % (world.prop, k["what_fails"]))
    violations = [v for v in agg["violations"]
                  if not any(k.get("status") == "finding" and k["what"] == v["what"] and re.search(k["match"], v["msg"])
                             for k in listed)]
    if violations:
        v = violations[0]
        found = len(violations)
        tries = 0
        best = v
        if not a.no_shrink:
            try:
                best, tries = runner.shrink(world, v)
            except Exception as e:
                print("shrinking stopped: %r" % e)
        best["index"] = v["index"]
        path = runner.save_replay(world, best, a.seed, a.tier, {"shrink_tries": tries})
        if not confirm(a.prop, path):
            path0 = runner.save_replay(world, v, a.seed, a.tier, {"shrink_tries": 0})
            ok = confirm(a.prop, path0)
            path = path0
            best = v
            if not ok:
                print("note: the replay did not fail again in a fresh process")
        print("violation at run %d: %s\n%s" % (v["index"], best["what"], best["msg"]))
        print("plan: %s" % json.dumps(best["plan"])[:2500])
        print("VIOLATION property=%s replay=%s" % (world.prop, path))
        rc = 1
    elif agg["errors"]:
        for e in agg["errors"][:3]:
            print("HARNESS-ERROR run %s: %s %s\n%s" % (e["index"], e["status"], e["what"], e["msg"]))
        rc = 2
    elif agg["runs"] == 0:
        print("HARNESS-ERROR nothing ran")
        rc = 2
    evidence(world, a, agg, wall_search, samples, found)
    st = agg["stats"]
    print("%s %s: %d runs in %.1f s (%d distinct, %d non-trivial), %d calls, %d faults fired, %d thread switches, "
          "%d distinct situations" % (world.prop, a.tier, agg["runs"], wall_search, len(agg["digests"]),
                                      len(agg["nontrivial"]), st["calls"],
                                      sum(v for k, v in st.items() if k.startswith("fault ")), st["thread switches"],
                                      len(agg["notes"])))
    return rc


def confirm(prop, path):
    r = subprocess.run([sys.executable, "-m", "dst.check", prop, "--replay", path], capture_output=True, text=True)
    return r.returncode == 1


def evidence(world, a, agg, wall, samples, found):
    from . import runner
    st = agg["stats"]
    hours = max(wall, 1e-3) / 3600.
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": world.rule,
        "samples": samples,
        "simulated_runs_per_hour": int(agg["runs"] / hours),
        "seeds_per_hour": int(agg["runs"] / hours),
        "simulated_seconds": agg["time"],
        "simulated_time_note": "magpie reads no clock; simulated time is what its calls to the simulated clock "
                               "consumed, the unit of progress is the bytecode event",
        "bytecode_events": st["events"],
        "calls_into_magpie": st["calls"],
        "faults_fired": {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault ")},
        "faults_armed": st["faults armed"],
        "thread_switches": st["thread switches"],
        "distinct_situations": len(agg["notes"]),
        "distinct_situations_measure": world.measure,
        "distinct_runs": len(agg["digests"]),
        "other_counts": {k: v for k, v in sorted(st.items()) if not k.startswith("fault") and
                         k not in ("events", "calls", "thread switches")},
        "real_components": world.real,
        "stub_components": world.stub,
    }
    runner.write_json(os.path.join(runner.ROOT, "evidence", world.prop + ".json"), {
        "property": world.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
        "assumptions": world.assumptions, "wall_s": round(time.time() - T0, 2), "violations": found})


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print("HARNESS-ERROR")
        code = 2
    sys.stdout.flush()
    os._exit(code)
