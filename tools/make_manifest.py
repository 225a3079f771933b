"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
T = "deterministic simulation with fault injection: "
TECH = {
 "C01": (T + "seeded cooperative scheduling of simulated caller threads at every library line/bytecode, answers compared with a clean-room universe", "Every answer of every explored interleaving equals the single-caller answer. Assumes numpy/scipy calls are atomic (they run to completion between scheduling points)."),
 "C02": (T + "seeded request histories with crashes/restarts, every answer compared with a clean-room universe", "Every answer in every explored history equals the clean-room answer. A universe stands for a fresh process; sampled against real processes in each run."),
 "C03": (T + "interrupts, failing allocations and cancellations delivered at seeded execution points, later answers compared with a clean-room universe", "For every explored interruption point. Interrupts inside C code of numpy/scipy are not simulated."),
 "C04": (T + "crash/restart chains of a simulated client with durable storage, compared with the uninterrupted orbit and a step-by-step geodesic integrator", "Numerical agreement within a conditioning-scaled tolerance; the integrator and the saved-state formulas are the harness's own."),
 "C05": (T + "crash/restart chains of plunging orbits, compared with the uninterrupted orbit and a step-by-step geodesic integrator", "As C04, for plunges with E<1, a>0, L!=0."),
 "C06": (T + "invariants recomputed from raw state at every save point of long crash/restart chains", "Invariants come from the harness's own metric; drift bounds are conditioning-scaled."),
 "C07": (T + "simulated cluster with message loss, duplication, reordering, delay and node crashes evaluating shards of transported orbits", "Each node is a universe; the network is simulated; pickle/copy are real."),
 "C08": (T + "animation rendered to a simulated encoder, every frame's content captured and compared with a reference", "matplotlib is real; the encoder process is simulated; most runs capture artists instead of rasterising."),
 "C09": (T + "encoder, disk, callback, memory and interrupt faults injected into animations at seeded points", "The encoder process and its pipe are simulated."),
 "C10": (T + "plot() interleaved with other pyplot users by the seeded scheduler, figures compared with a reference", "matplotlib calls are atomic."),
 "C11": (T + "process-wide state snapshotted around normal, rejected and interrupted requests", "Covers the listed state and audited file/process events of the exercised requests."),
 "C12": (T + "seeded histories that keep, reuse and scribble on returned objects, compared with a clean-room universe", "For every explored history."),
}
LEVEL = {}
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
runner = open(os.path.join(V, "vsim/runner.py")).read()
checks, na = [], []
mods = {l.split('"')[1]: l.split('"')[3] for l in runner.splitlines() if l.strip().startswith('"C') and "_" in l}
PURE = "Pure function of its arguments: no schedule, clock, I/O, fault, restart or history can change whether it holds, so simulated executions have nothing to vary that a plain input sweep would not; deciding it is input testing or proof, not deterministic simulation."
for p in props:
    i = p["id"]
    if i in mods and os.path.exists(os.path.join(V, "vsim", mods[i] + ".py")):
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": TECH[i][0], "level": "exploration", "level_note": TECH[i][1]})
    else:
        na.append({"property": i, "reason": PURE if i[0] == "N" else "check not built yet"})
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is outside it (import system, sys.settrace, threading/time factories, pickle, matplotlib's subprocess). fix: commits are listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
