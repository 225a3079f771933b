"""C01: concurrent callers of shared orbits get the single-caller answer."""
from . import ops, sched
from .runner import Result
import json

RUNS = {"quick": 2200, "thorough": 60000}
BUDGET = {"quick": 160, "thorough": 1500}
RULE = (
    "each run is 2-5 simulated threads with 1-6 requests each on shared orbits and functions, "
    "interleaved by the seeded scheduler at library lines (or bytecodes); every answer, error and "
    "final attribute is compared with the one the request gets alone in a fresh universe.  "
    "Non-trivial: the baton moved between threads inside library code at least 3 times."
)
TIME_UNIT = "library events executed under the scheduler"
STATE_MEASURE = "distinct preemptions (thread's library position, thread switched to, position it resumes from) and whole interleavings"
REAL = ["every kerrgeopy module (executed from /repo)", "numpy", "scipy", "real OS threads, one running at a time"]
STUBS = ["thread scheduler", "threading.Lock/RLock created by library code", "clock read by library code"]
ASSUMPTIONS = ["numpy, scipy and dict/list operations of the interpreter are atomic with respect to other threads (GIL build)"]


def gen_policy(rng):
    k = rng.random()
    p = {"mode": "random", "seed": rng.getrandbits(40), "gap": rng.choice([2, 5, 20, 80, 300])}
    if k < 0.2:
        p["prio"] = True
        p["gap"] = rng.choice([100, 500, 2000])
    elif k < 0.4:
        p["stall"] = rng.choice([0.05, 0.3])
    if rng.random() < 0.05:
        p["cap"] = 100
        p["gap"] *= 8
    elif rng.random() < 0.25:
        p["opcodes"] = True
        p["gap"] *= 8
    return p


def gen_storm(rng):
    """Some callers ask the same question again and again while others ask many different ones."""
    pool = ops.storm(rng, rng.choice([5, 20, 20, 40, 40, 150]))
    threads = []
    for k in range(rng.choice([2, 3, 3, 4])):
        if k == 0 or rng.random() < 0.3:
            reqs = [rng.choice(pool[: rng.choice([1, 2])]) for _ in range(rng.choice([15, 40, 60]))]
        else:
            j = rng.randrange(len(pool))
            reqs = (pool * 30)[j : j + rng.choice([10, 50, 100, 150])]
        threads.append(reqs)
    p = {"mode": "random", "seed": rng.getrandbits(40), "gap": rng.choice([2, 5, 20]), "stall": rng.choice([0.1, 0.3, 0.6]), "stall_for": rng.choice([100, 1000, 3000]), "cap": rng.choice([1, 1, 2, 5])}
    if rng.random() < 0.7:
        p["victim"] = 0
    return {"defs": {}, "threads": threads, "prebuild": False, "policy": p}


def gen_tables(rng):
    """Callers build tables of the separatrix at the same time, and use them."""
    qs = [{"r": "sep", "a": rng.choice([0.3, 0.9, 0.9001, 0.6]), "g": rng.choice([0.25, 0.25, 0.3, 0.2]), "e": ops.r6(rng.random()), "x": ops.r6(rng.uniform(-1, 1))}]
    for _ in range(rng.randrange(0, 3)):
        qs.append(dict(qs[0], **rng.choice([{"a": 0.5}, {"a": qs[0]["a"] * (1 - 1e-9)}, {"g": 0.35}, {"e": ops.r6(rng.random())}])))
    threads = []
    for _ in range(rng.choice([2, 2, 3])):
        reqs = [rng.choice(qs) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.3:
            a, p, e, x, _ = rng.choice(ops.PARAMS["bound"])
            reqs.append({"r": "fn", "f": ["constants", "separatrix"], "args": [a, e, x]})
        threads.append(reqs)
    p = gen_policy(rng)
    p["opcodes"] = False
    p["cap"] = rng.choice([6, 30, 100])
    return {"defs": {}, "threads": threads, "prebuild": False, "policy": p}


def gen(rng, i, tier):
    if rng.random() < 0.05:
        return gen_storm(rng)
    if rng.random() < 0.02:
        return gen_tables(rng)
    kinds = rng.choice([("stable",), ("plunge",), ("stable", "plunge", "orbit", "from_constants"), ("orbit", "stable")])
    defs, objs, hs = ops.gen_defs(rng, rng.randrange(1, 4), rng.randrange(1, 5), kinds, twins=0.7)
    pool = []
    if rng.random() < 0.3:  # the callers' requests differ in one number only
        defs, pool = ops.contrast(rng)
        pool = [q for q in pool if q["r"] != "sep"]
        objs = [n for n in defs if n[0] == "o"]
        hs = [n for n in defs if n[0] == "h"]
        if not pool or rng.random() < 0.85 or not objs or not hs:
            objs = hs = None
    n = rng.randrange(2, 7) if objs else 0
    while len(pool) < n:
        q = ops.gen_req(rng, defs, objs, hs, slow=False)
        if q is not None:
            pool.append(q)
    threads = []
    for _ in range(rng.choice([2, 2, 3, 3, 4, 5])):
        reqs = []
        for _ in range(rng.randrange(1, 5)):
            k = rng.random()
            if (k < 0.6 or not objs) and pool:
                q = dict(rng.choice(pool))
                if "x" in q and rng.random() < 0.5:
                    q["x"] = ops.gen_x(rng)
            elif objs:
                q = ops.gen_req(rng, defs, objs, hs, slow=False)
            else:
                q = ops.gen_fn(rng, slow=False)
            if q is not None:
                reqs.append(q)
        threads.append(reqs)
    return {"defs": defs, "threads": threads, "prebuild": rng.random() < 0.7, "policy": gen_policy(rng)}


def with_decisions(plan, log):
    return dict(plan, policy={"mode": "log", "log": log, "opcodes": plan["policy"].get("opcodes", False), "cap": plan["policy"].get("cap", sched.CAP)})


def lists(plan):
    out = [("threads",)] + [("threads", i) for i in range(len(plan["threads"]))]
    if "log" in plan["policy"]:
        out.append(("policy", "log"))
    return out


def simplify(plan):
    used = ops.needed(plan["defs"], [q.get(k) for reqs in plan["threads"] for q in reqs for k in ("o", "h")])
    if len(used) < len(plan["defs"]):
        yield dict(plan, defs={n: d for n, d in plan["defs"].items() if n in used})


def interleave(plan, res, w, interrupts=None, limit=3_000_000):
    """Run the plan's threads under the scheduler; returns the per-thread outcomes."""
    s = sched.Scheduler(plan["policy"], limit=limit)
    answers = [[] for _ in plan["threads"]]

    def body(k):
        def f():
            for q in plan["threads"][k]:
                s.new_request()
                try:
                    answers[k].append(ops.outcome(lambda: w.answer(q)))
                except sched.StepLimit:
                    raise
                except BaseException as e:  # an injected interrupt reached the caller
                    answers[k].append(("interrupted", type(e).__name__))

        return f

    for k in range(len(plan["threads"])):
        s.spawn(body(k), (interrupts or {}).get(k))
    try:
        with w.uni:
            s.run()
    except sched.Deadlock as e:
        res.bad("deadlock", str(e))
    except sched.StepLimit:
        res.bad("no progress", "the callers did not finish within %d library events" % limit)
    res.decisions = s.log
    res.steps = s.steps
    res.sim_time = s.steps
    res.faults["preemption"] += len(s.trace_sig)
    for sig in s.trace_sig:
        res.state(sig[1:3], plan["threads"].__len__())
    res.state("whole", s.trace_sig)
    return answers, s


def run(plan):
    res = Result()
    defs = plan["defs"]
    w = ops.World(defs)
    if plan["prebuild"]:
        with w.uni:
            for n in defs:
                try:
                    w.obj(n)
                except Exception:
                    pass
    answers, s = interleave(plan, res, w)
    if plan["policy"].get("stall"):
        res.faults["caller stalled"] += sum(1 for t in s.threads if t["stall"])
    for k, reqs in enumerate(plan["threads"]):
        for q, got in zip(reqs, answers[k]):
            want = ops.clean_room(defs, q)
            res.counts["answers compared"] += 1
            d = ops.differ(got, want)
            if d:
                res.bad("concurrent:" + q["r"], "thread %d, %s: %s" % (k, ops._short(json.dumps(q)), d))
    # afterwards the shared orbits are what they would have been
    if not res.violations:
        for n, d in defs.items():
            if "on" not in d and n in w.objs:
                q = {"r": "attrs", "o": n}
                res.counts["final attributes compared"] += 1
                d = ops.differ(w.ask(q), ops.clean_room(defs, q))
                if d:
                    res.bad("concurrent:attrs", "attributes of %s afterwards: %s" % (n, d))
    res.nontrivial = len(s.trace_sig) >= 3
    res.sample = {"threads": plan["threads"], "policy": plan["policy"], "switches": s.trace_sig[:6]}
    return res
