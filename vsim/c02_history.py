"""C02: answers do not depend on what was computed before."""
from .universe import Universe
from . import ops, sched
from .runner import Result
import gc
import json
import os
import random
import subprocess
import sys

import numpy as np

RUNS = {"quick": 4200, "thorough": 100000}
BUDGET = {"quick": 150, "thorough": 1500}
RULE = (
    "each run is a seeded history of 5-60 requests (storms: 150-400) by one process over orbits "
    "that are mostly near-twins of each other (in most runs the same request with one number changed: "
    "by 1e-2 to 1e-14, its sign, its type, its side of the separatrix), with crashes, garbage collection, dropped orbits, "
    "rejected requests and clock jumps in between; every answer is compared with the answer the "
    "same request gets alone in a fresh universe.  Non-trivial: at least 3 requests compared and "
    "at least two orbits or functions that differ in one respect only."
)
TIME_UNIT = "requests served"
STATE_MEASURE = "distinct (request kind, function, kind of the previous two requests) histories and distinct request contents"
REAL = ["every kerrgeopy module (executed from /repo)", "numpy", "scipy"]
STUBS = ["process restart (universe)", "clock read by library code"]
ASSUMPTIONS = [
    "a fresh universe equals a fresh process (sampled against real processes in this run: see real_process_cross_checks)",
    "numpy and scipy are deterministic for the same call",
]


def gen_contrast(rng):
    """The same request with one number changed, in a seeded order, some of them more than once."""
    defs, reqs = {}, []
    for k in range(rng.choice([1, 1, 1, 2])):
        d, qs = ops.contrast(rng)
        new = {n: "%s_%d" % (n, k) for n in d}
        defs.update({new[n]: dict(v, on=new[v["on"]]) if "on" in v else v for n, v in d.items()})
        reqs += [dict(q, **{j: new[q[j]] for j in ("o", "h") if j in q}) for q in qs]
    seq = reqs + [rng.choice(reqs) for _ in range(rng.randrange(0, 3))]
    rng.shuffle(seq)
    steps = []
    for q in seq:
        steps.append({"t": "req", "q": q})
        if rng.random() < 0.03:
            steps.append({"t": "crash"})
        elif rng.random() < 0.06 and defs:
            steps.append({"t": "forget", "n": rng.choice(sorted(defs)), "gc": rng.random() < 0.5})
    return {"defs": defs, "steps": steps, "contrast": True}


def gen(rng, i, tier):
    if rng.random() < 0.72:
        return gen_contrast(rng)
    storm = rng.random() < 0.05
    kinds = rng.choice([("stable",), ("plunge",), ("stable", "plunge", "orbit", "from_constants"), ("orbit", "stable")])
    defs, objs, hs = ops.gen_defs(rng, rng.randrange(2, 7), rng.randrange(2, 9), kinds)
    steps = []
    n = rng.randrange(150, 400) if storm else rng.choice([6, 10, 16, 24])
    asked = []
    for _ in range(n):
        if storm:
            q = ops.gen_fn(rng, slow=False)
        elif asked and rng.random() < 0.25:
            q = rng.choice(asked)  # the same request again, later
        else:
            q = ops.gen_req(rng, defs, objs, hs)
        if q is None:
            continue
        asked.append(q)
        steps.append({"t": "req", "q": q})
        k = rng.random()
        if k < 0.04:
            steps.append({"t": "crash"})
        elif k < 0.12:
            steps.append({"t": "forget", "n": rng.choice(objs + hs), "gc": rng.random() < 0.3})
        elif k < 0.16:
            steps.append({"t": "clock", "d": rng.choice([1.0, 61.0, 86400.0, -5.0])})
        elif k < 0.2:
            steps.append({"t": "req", "q": ops.gen_bad(rng)})
    return {"defs": defs, "steps": steps}


def lists(plan):
    return [("steps",)]


def simplify(plan):
    used = ops.needed(plan["defs"], [s.get("q", {}).get(k) for s in plan["steps"] for k in ("o", "h")])
    p = dict(plan, defs={n: d for n, d in plan["defs"].items() if n in used})
    if len(p["defs"]) < len(plan["defs"]):
        yield dict(p, steps=[s for s in p["steps"] if s["t"] != "forget" or s["n"] in used])


def kind(q):
    return (q["r"], str(q.get("f", "")), q.get("m", ""), q.get("c"))


def run(plan):
    res = Result()
    defs = plan["defs"]
    w = ops.World(defs)
    prev = ((), ())
    compared = 0
    for s in plan["steps"]:
        t = s["t"]
        if t == "crash":
            w = ops.World(defs)
            res.faults["process crash and restart"] += 1
        elif t == "forget":
            w.objs.pop(s["n"], None)
            res.faults["orbit or function dropped"] += 1
            if s["gc"]:
                gc.collect(0)
                res.faults["garbage collection"] += 1
        elif t == "clock":
            sched.clock[0] += s["d"]
            res.faults["clock jump"] += 1
        else:
            q = s["q"]
            got = w.ask(q)
            want = ops.clean_room(defs, q)
            compared += 1
            res.counts["answers compared"] += 1
            if got[0] == "err":
                res.faults["rejected request"] += 1
            d = ops.differ(got, want, exact=True)
            h = q.get("h") or q.get("o")
            k = kind(q) + ((defs[h].get("m") or defs[h].get("k")) if h else None,)
            res.state("kinds", prev, k)
            res.state("content", ops.closure(defs, q))
            prev = (prev[1], k)
            if d:
                res.bad("history:" + q["r"], "after %d requests, %s: %s" % (compared - 1, ops._short(json.dumps(q)), d))
                break
    res.sim_time = compared
    res.steps = len(plan["steps"])
    res.nontrivial = compared >= 3 and (len(defs) >= 2 or plan.get("contrast", False))
    res.sample = {"first_steps": plan["steps"][:4], "orbits": [d for n, d in plan["defs"].items() if n[0] == "o"][:3]}
    return res


def finish(tier, seed, scratch):
    """Cross-check the clean room itself against real fresh processes."""
    rng = random.Random(seed * 7919 + 5)
    n = 6 if tier == "quick" else 24
    bad = None
    procs = []
    for _ in range(n):
        defs, objs, hs = ops.gen_defs(rng, 2, 3)
        q = ops.gen_req(rng, defs, objs, hs) or {"r": "make", "o": objs[0]}
        want = ops.clean_room(defs, q)
        env_ = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), VSIM_SCRATCH=scratch)
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "vsim.fresh"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env_, cwd=scratch)
        p.stdin.write(ops.closure(defs, q).encode())
        p.stdin.close()
        procs.append((p, q, want))
    agree = 0
    import pickle

    for p, q, want in procs:
        data = p.stdout.read()
        p.wait()
        got = pickle.loads(data)
        d = ops.differ(got, want)
        if d:
            bad = "a universe and a real fresh process disagree on %r: %s" % (q, d)
        agree += 1
    return {"real_process_cross_checks": agree}, bad
