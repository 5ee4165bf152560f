"""Writes MANIFEST.json: one check per world in dst/worlds."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = {
    "C01": "deterministic simulation: seeded operation histories with injected interrupts, allocation failures and poisoned memory, checked against an independent geometric model",
    "C02": "deterministic simulation: seeded adversarial random streams and histories, checked against exact overlap hulls and a statistical envelope",
    "C03": "deterministic simulation: faults injected at seeded bytecode events, allocations and output writes, before/after answers compared, retries compared with a pristine process",
    "C04": "deterministic simulation: seeded multi-object histories, answers compared with a pristine process for the model's current grids",
    "C05": "deterministic simulation: samplers driven by seeded adversarial random streams, membership checked per point",
    "C06": "deterministic simulation of the random stream with statistical tests over seeded runs (p < 1e-12)",
    "C07": "deterministic simulation of the random stream: per-run laws on adversarial streams, frequencies over seeded runs (p < 1e-12)",
    "C08": "deterministic simulation: the same seeded program replayed in varied environments (clock, stdout, threads, memory, hash seed) and compared bit for bit",
    "C09": "deterministic simulation: caller data compared at every bytecode event of calls under injected faults",
    "C10": "deterministic simulation: seeded thread schedules over real code, each call compared with its result alone",
    "C11": "deterministic simulation: seeded thread schedules over shared remappers, each call compared with its result alone",
    "C12": "deterministic simulation: seeded call histories with poisoned memory, checked against an exact overlap model",
    "C13": "deterministic simulation: output stream under simulator control, parsed and checked against the display's law",
    "C14": "deterministic simulation: faults injected at seeded events of every library call; error identity and later calls compared with a pristine process",
    "C15": "deterministic simulation: seeded operation histories with faults, profiles checked against an independent model",
    "C16": "deterministic simulation: seeded view histories with faults, transforms checked against a projection model",
    "C17": "deterministic simulation: seeded operation histories with injected interrupts and allocation failures, published grids inspected after every step against an independent model",
    "C18": "deterministic simulation: seeded histories around copies and pickles with injected interrupts and allocation failures, original and copy compared with a forked execution in which the other did not exist",
    "C19": "deterministic simulation: thousands of repetitions of seeded calls with injected interrupts and allocation failures under a counting allocator; growth in every stretch is a violation",
    "C20": "deterministic simulation: seeded operation histories with injected interrupts and allocation failures, positions checked against an independent projection model",
    "C21": "deterministic simulation: seeded histories of ring remappers with injected interrupts and allocation failures, rotated maps checked against an independent model of the current grid",
    "C22": "deterministic simulation: library calls made at a seeded event of another call (signal handler) or from its output stream, with injected interrupts, compared with forked executions in which each runs alone",
    "C23": "deterministic simulation: seeded programs with injected interrupts and allocation failures in which the caller overwrites arguments and results between calls, compared with the program without that and with every other array",
}
NA = {
    "N01": "The conversions are pure elementwise functions of their arguments: no state, schedule, I/O, randomness or fault the result could depend on, so simulation has nothing to decide (their purity, fault behaviour and use from threads are covered by C08-C10 and C14).",
    "N02": "Pure integer arithmetic on the arguments; no nondeterminism, history or fault to simulate. Deciding it is enumeration or proof over pixels, not simulation.",
    "N03": "A pure function of its argument arrays with no state, randomness or schedule; an input-output law for every bin layout is a matter for proof or input generation, not for simulated schedules and faults.",
    "N04": "Pure trigonometry of the arguments; nothing nondeterministic to control. (That the functions leave inputs alone and are thread-safe is C09 and C10.)",
    "N05": "Pure functions of a few numbers; no state, time, I/O or randomness the property depends on.",
    "N06": "Pure functions of a few numbers; no state, time, I/O or randomness the property depends on.",
    "N07": "A pure function of three arrays; no state, randomness, schedule or fault enters the law.",
    "N08": "The plotting helpers draw through matplotlib on a figure; positions are a pure function of the arguments and no schedule, clock or fault enters. matplotlib itself is not part of the repository.",
}
REST = "not built yet"

checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "dst", "worlds", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": "%s -m dst.check %s --tier quick" % (PY, p),
            "thorough_cmd": "%s -m dst.check %s --tier thorough" % (PY, p),
            "technique": TECH[p],
            "level": "exploration",
            "level_note": "Seeded search over schedules, faults and inputs; every run is one repeatable execution of the "
                          "real code. Not exhaustive.",
        })
    else:
        na.append({"property": p, "reason": NA.get(p, REST)})
m = {"version": 1, "setup_cmd": "%s -m dst.build" % PY, "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: numpy.random, time, sys.stdout, numpy's allocator, threading locks and the interpreter's "
              "monitoring events are the seams. Replay a violation with: %s -m dst.check <id> --replay <file>." % PY}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
