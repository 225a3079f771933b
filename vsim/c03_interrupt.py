"""C03: an interrupted, failed or rejected call leaves no trace."""
from . import c01_concurrent, ops, sched
from .runner import Result
import json
import os
import random

import numpy
import scipy

RUNS = {"quick": 1500, "thorough": 40000}
BUDGET = {"quick": 160, "thorough": 1500}
RULE = (
    "each run keeps a few shared orbits and functions, cuts 2-6 calls short at a seeded library "
    "event (KeyboardInterrupt, MemoryError, cancellation; alone or while other threads run) or has "
    "them rejected, then repeats the call and asks other questions, all compared with the answers "
    "given alone in a fresh universe.  Non-trivial: at least one interrupt was delivered inside "
    "library code."
)
TIME_UNIT = "library events executed"
STATE_MEASURE = "distinct (request kind, library position of the interruption, kind of interruption)"
REAL = ["every kerrgeopy module (executed from /repo)", "numpy", "scipy"]
STUBS = ["delivery of interrupts and failing allocations (raised at a library event by the simulator)", "thread scheduler", "clock read by library code"]
ASSUMPTIONS = ["interrupts are delivered between library events (source lines or bytecodes), not inside numpy/scipy C code"]

NPY = os.path.dirname(numpy.__file__)
SPY = os.path.dirname(scipy.__file__)
DEEP = (NPY + "/polynomial", NPY + "/linalg", SPY + "/optimize")


def gen(rng, i, tier):
    kinds = rng.choice([("stable",), ("plunge",), ("stable", "plunge", "orbit", "from_constants"), ("orbit", "stable")])
    defs, objs, hs = ops.gen_defs(rng, rng.randrange(1, 4), rng.randrange(1, 5), kinds)

    def req():
        while True:
            q = ops.gen_req(rng, defs, objs, hs, slow=False)
            if q is not None:
                return q

    if rng.random() < 0.15:  # one of several threads is cut short
        p = c01_concurrent.gen(rng, i, tier)
        p["mode"] = "threads"
        p["cut"] = {"thread": rng.randrange(len(p["threads"])), "at": int(rng.expovariate(1 / 1500.0)) + 1, "exc": rng.choice(["KeyboardInterrupt", "Cancelled", "MemoryError"])}
        return p
    steps = []
    if rng.random() < 0.05:  # tables are built point by point: a cut leaves them half done
        return gen_table(rng)
    for _ in range(rng.randrange(0, 3)):
        steps.append({"t": "ask", "q": req()})
    for _ in range(rng.randrange(2, 6)):
        k = rng.random()
        q = req()
        if k < 0.75:
            steps.append(
                {
                    "t": "cut",
                    "q": q,
                    "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "Cancelled"]),
                    "pick": [rng.choice(["event", "line", "shallow", "late"]), rng.random(), rng.random()],
                    "opcodes": rng.random() < 0.15,
                    "deep": rng.random() < 0.1,
                }
            )
        elif k < 0.87:
            steps.append({"t": "ask", "q": ops.gen_bad(rng)})
            if steps[-1]["q"]["r"] == "new" and rng.random() < 0.8:
                steps += [{"t": "ask", "q": ops.gen_new(rng, (steps[-1]["q"]["k"],) if steps[-1]["q"]["k"] != "spacetime" else ("orbit",))} for _ in range(rng.randrange(1, 4))]
        else:
            h = rng.choice(hs)
            steps.append({"t": "ask", "q": {"r": "eval", "h": h, "c": None if ops.n_components(defs[h]["m"]) is None else rng.randrange(4), "x": {"bad": rng.choice(["str", "none", "dict", "obj"])}}})
        if rng.random() < 0.8:
            steps.append({"t": "ask", "q": q})
        for _ in range(rng.randrange(1, 3)):
            steps.append({"t": "ask", "q": req()})
    for n in objs:
        steps.append({"t": "ask", "q": {"r": "attrs", "o": n}})
    for n in hs:
        steps.append({"t": "ask", "q": {"r": "eval", "h": n, "c": None if ops.n_components(defs[n]["m"]) is None else rng.randrange(4), "x": ops.gen_x(rng)}})
    return {"mode": "seq", "defs": defs, "steps": steps, "prebuild": [n for n in objs + hs if rng.random() < 0.5]}


def gen_table(rng):
    q = {"r": "sep", "a": rng.choice([0.3, 0.9, 0.9001, ops.r6(rng.uniform(0.05, 0.98))]), "g": rng.choice([0.25, 0.2, 0.3]), "e": ops.r6(rng.random()), "x": ops.r6(rng.uniform(-1, 1))}
    steps = [{"t": "ask", "q": q}] if rng.random() < 0.2 else []
    for _ in range(rng.choice([1, 1, 2])):
        pick = [rng.choice(["event", "event", "line", "shallow", "shallow"]), rng.random(), rng.random()]
        steps.append({"t": "cut", "q": q, "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "Cancelled"]), "pick": pick, "opcodes": False, "deep": False})
    for _ in range(rng.randrange(1, 4)):
        steps.append({"t": "ask", "q": dict(q, e=ops.r6(rng.random()), x=ops.r6(rng.uniform(-1, 1)))})
    return {"mode": "seq", "defs": {}, "steps": steps, "prebuild": []}


def lists(plan):
    return c01_concurrent.lists(plan) if plan["mode"] == "threads" else [("steps",), ("prebuild",)]


def simplify(plan):
    if plan["mode"] == "threads":
        yield from c01_concurrent.simplify(plan)
        return
    for i, s in enumerate(plan["steps"]):
        if s["t"] == "cut" and (s["opcodes"] or s["deep"]):
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, opcodes=False, deep=False)] + plan["steps"][i + 1 :])
    used = ops.needed(plan["defs"], plan["prebuild"] + [s["q"].get(k) for s in plan["steps"] for k in ("o", "h")])
    if any(n not in used for n in plan["defs"]):
        yield dict(plan, defs={n: d for n, d in plan["defs"].items() if n in used})


def with_decisions(plan, log):
    return c01_concurrent.with_decisions(plan, log) if plan["mode"] == "threads" else plan


def prebuild(w, names):
    with w.uni:
        for n in names:
            try:
                w.obj(n)
            except Exception:
                pass


def choose_event(defs, built, q, step):
    """The event number to interrupt at, from a rehearsal of the call in a twin universe."""
    twin = ops.World(defs)
    prebuild(twin, built)
    trail = []

    def note(frame):
        depth = 0
        f = frame.f_back
        while f is not None and f.f_code.co_filename.startswith(sched.PREFIX):
            depth += 1
            f = f.f_back
        trail.append((depth, frame.f_code.co_name, frame.f_lineno))

    t = sched.Tracer(opcodes=step["opcodes"], extra=DEEP if step["deep"] else (), on_event=note)
    with twin.uni:
        ops.outcome(lambda: t.run(lambda: twin.answer(q)))
    if not trail:
        return None
    how, u, v = step["pick"]
    if how == "event":
        return 1 + int(u * len(trail))
    if how == "late":
        return 1 + int((1 - u**3) * (len(trail) - 1))
    if how == "shallow":
        d = sorted({x[0] for x in trail})[:2]
        cand = [i for i, x in enumerate(trail) if x[0] in d]
        return 1 + cand[int(u * len(cand))]
    keys = sorted(set(trail))
    k = keys[int(u * len(keys))]
    cand = [i for i, x in enumerate(trail) if x == k]
    return 1 + cand[int(v * len(cand))]


def judge(res, defs, q, got, what, klass):
    want = ops.clean_room(defs, q)
    res.counts["answers compared"] += 1
    d = ops.differ(got, want)
    if d:
        res.bad(klass + ":" + q["r"], "%s, %s: %s" % (what, ops._short(json.dumps(q)), d))
    return d


def run(plan):
    res = Result()
    defs = plan["defs"]
    if plan["mode"] == "threads":
        return run_threads(plan, res)
    w = ops.World(defs)
    prebuild(w, plan["prebuild"])
    last = "no interruption yet"
    fired = 0
    for s in plan["steps"]:
        q = s["q"]
        if s["t"] == "ask":
            got = w.ask(q)
            if got[0] == "err":
                res.faults["rejected request"] += 1
            if judge(res, defs, q, got, last, "after failure"):
                break
            continue
        at = choose_event(defs, list(w.objs), q, s)
        if at is None:
            continue
        exc = sched.INTERRUPTS[s["exc"]]
        t = sched.Tracer(at, exc, opcodes=s["opcodes"], extra=DEEP if s["deep"] else (), limit=5_000_000)
        with w.uni:
            try:
                got = ops.outcome(lambda: t.run(lambda: w.answer(q)))
                if got == ("err", exc.__name__):
                    got = ("interrupted", exc.__name__)
            except sched.StepLimit:
                res.bad("no progress", "the call did not finish after %s at %s" % (s["exc"], t.fired))
                break
            except BaseException as e:
                got = ("interrupted", type(e).__name__)
        res.steps += t.n
        if t.fired is None:
            continue
        fired += 1
        res.faults[s["exc"] + (" (bytecode)" if s["opcodes"] else "")] += 1
        res.state(q["r"], q.get("m"), t.fired, s["exc"])
        last = "after %s at %s during %s" % (s["exc"], t.fired, ops._short(json.dumps(q)))
        if got[0] == "interrupted":
            if got[1] != s["exc"]:
                res.bad("interruption lost", "%s arrived at the caller as %s" % (last, got[1]))
                break
        elif s["exc"] != "MemoryError":
            res.bad("interruption lost", "%s never reached the caller: %s" % (last, ops._short(got)))
            break
        elif got[0] == "ok" and judge(res, defs, q, got, last + " (swallowed)", "after failure"):
            break
    res.sim_time = res.steps
    res.nontrivial = fired > 0
    res.sample = {"steps": plan["steps"][:3], "last": last}
    return res


def run_threads(plan, res):
    defs = plan["defs"]
    w = ops.World(defs)
    if plan["prebuild"]:
        prebuild(w, defs)
    cut = plan["cut"]
    k = cut["thread"] % max(1, len(plan["threads"]))
    answers, s = c01_concurrent.interleave(plan, res, w, {k: (cut["at"], sched.INTERRUPTS[cut["exc"]])})
    fired = bool(s.fired)
    where = "after %s in thread %d at %s" % (cut["exc"], k, s.fired[0][2:] if fired else "never")
    if fired:
        res.faults[cut["exc"] + " (in one of several threads)"] += 1
        res.state("threads", s.fired[0][2:], cut["exc"])
    for j, reqs in enumerate(plan["threads"]):
        for q, got in zip(reqs, answers[j]):
            if got[0] == "interrupted" or got == ("err", cut["exc"]):
                continue
            judge(res, defs, q, got, where, "after failure")
    if not res.violations:
        for reqs in plan["threads"]:
            for q in reqs:
                judge(res, defs, q, w.ask(q), where + ", asked again", "after failure")
    res.nontrivial = fired
    res.sample = {"cut": cut, "threads": plan["threads"][:2]}
    return res
