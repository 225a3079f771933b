"""C12: what was handed out stays what it was; what was passed in is not modified."""
from . import ops, sched
from .runner import Result
import copy
import gc
import json

import numpy as np

RUNS = {"quick": 1800, "thorough": 50000}
BUDGET = {"quick": 160, "thorough": 1500}
RULE = (
    "each run is a seeded history that requests functions and values, keeps them, reuses and "
    "overwrites the input arrays it passed, scribbles on returned arrays, mutates phase lists it "
    "passed, reassigns attributes of orbits, and calls held functions again in any order; held "
    "arrays must keep their content and every answer must equal the one given alone in a fresh "
    "universe.  Non-trivial: a function was called again, or a held array re-examined, after at "
    "least one such disturbance."
)
TIME_UNIT = "steps of the history"
STATE_MEASURE = "distinct sequences of three successive step kinds with the functions involved"
REAL = ["every kerrgeopy module (executed from /repo)", "numpy", "scipy"]
STUBS = ["clock read by library code"]
ASSUMPTIONS = ["attributes are assigned by the client through plain assignment; an orbit so changed is not asked again, only functions obtained from it before"]


def gen(rng, i, tier):
    kinds = rng.choice([("stable",), ("plunge",), ("stable", "plunge", "orbit", "from_constants"), ("orbit", "stable")])
    defs, objs, hs = ops.gen_defs(rng, rng.randrange(1, 4), rng.randrange(2, 6), kinds, twins=0.7)
    for n in objs:
        if rng.random() < 0.5:
            defs[n]["seq"] = rng.choice(["list", "array"])
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        n = "f%d" % len(defs)
        k = rng.random()
        if k < 0.04:
            defs[n] = {"f": ["constants", "fast_separatrix"], "args": [rng.choice([0.3, 0.9]), 0.25], "n": None, "extra": [0.3]}
            if rng.random() < 0.7:
                defs[n + "t"] = dict(defs[n], args=rng.choice([[0.3001, 0.25], [0.6, 0.25], [0.9, 0.2]]))
                hs.append(n + "t")
        elif k < 0.25:
            defs["s" + n] = {"k": "spacetime", "args": [defs[objs[0]]["args"][0]], "kw": {}}
            defs[n] = {"via": objs[0], "on": "s" + n}
            objs.append("s" + n)
        else:
            defs[n] = ops.gen_solution(rng)
        hs.append(n)
    n_buf = rng.randrange(1, 4)
    bufs = [[ops.r6(rng.uniform(-6, 6)) for _ in range(rng.choice([1, 3, 8]))] for _ in range(n_buf)]
    if rng.random() < 0.5:  # a long one
        lo = ops.r6(rng.uniform(-6, 3))
        bufs.append({"l": [lo, lo + ops.r6(rng.uniform(0.1, 8)), rng.choice([65, 100, 129, 300, 1030])]})
    steps = []
    for h in hs:
        if rng.random() < 0.5:
            steps.append({"t": "take", "h": h, "list": rng.random() < 0.5})
    for _ in range(rng.choice([10, 16, 25])):
        k = rng.random()
        h = rng.choice(hs)
        c = ops.n_components(defs[h])
        c = None if c is None else rng.randrange(c)
        if k < 0.15:
            steps.append({"t": "take", "h": h, "list": rng.random() < 0.5})
        elif k < 0.5:
            steps.append({"t": "call", "h": h, "c": c, "buf": rng.randrange(len(bufs)), "keep": rng.random() < 0.7})
        elif k < 0.62:
            steps.append({"t": "call", "h": h, "c": c, "x": ops.gen_x(rng), "keep": rng.random() < 0.7})
        elif k < 0.74:
            steps.append({"t": "scribble", "n": rng.randrange(12)})
        elif k < 0.84:
            steps.append({"t": "overwrite", "buf": rng.randrange(len(bufs)), "v": [ops.r6(rng.uniform(-6, 6)) for _ in range(8)]})
        elif k < 0.9:
            o = rng.choice(objs)
            steps.append({"t": "value", "q": rng.choice([ops.gen_call(rng, o, defs[o]), ops.gen_fn(rng, slow=False), ops.gen_fn(rng, slow=False), ops.gen_fn(rng, slow=False)])})
        elif k < 0.95:
            steps.append({"t": "assign", "o": rng.choice(objs), "n": rng.choice(["M", "M", "mu", "initial_phases", "initial_phases", "a", "p", "e", "x", "E", "L", "Q", "upsilon_r", "upsilon_theta", "gamma", "stable"]), "v": rng.choice([2, 7.5, 1e5]), "ph": [ops.r6(rng.uniform(0, 6)) for _ in range(4)]})
            o = steps[-1]["o"]
            if defs[o]["k"] == "spacetime":
                steps[-1]["n"] = "a"
            if rng.random() < 0.6:  # what is held of it is called again
                for h in [h for h in hs if o in (defs[h].get("on"), defs[h].get("via"))]:
                    n = ops.n_components(defs[h])
                    steps += [{"t": "call", "h": h, "c": c, "x": ops.gen_x(rng), "keep": False} for c in (range(n) if n else [None])]
        elif k < 0.98:
            steps.append({"t": "gc"})
        else:
            steps.append({"t": "drop", "o": rng.choice(objs)})
    return {"defs": defs, "bufs": bufs, "steps": steps}


def lists(plan):
    return [("steps",)]


def simplify(plan):
    used = ops.needed(plan["defs"], [n for s in plan["steps"] for n in (s.get("h"), s.get("o"), s.get("q", {}).get("o"))])
    if any(n not in used for n in plan["defs"]):
        yield dict(plan, defs={n: d for n, d in plan["defs"].items() if n in used})


def arrays(v):
    """Every ndarray reachable in a returned value."""
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, (tuple, list)):
        return [a for i in v for a in arrays(i)]
    if isinstance(v, dict):
        return [a for i in v.values() for a in arrays(i)]
    return []


class Client(ops.World):
    """A client that reuses the sequences it builds orbits from."""

    def built(self, name, before, args, kw):
        if not ops.same(ops.freeze([args, kw]), ops.freeze(list(before)), 0, 0) is None:
            self.res.bad("input modified", "building %s changed the sequences passed: %s" % (name, [args, kw]))
        for v in list(args) + list(kw.values()):
            if isinstance(v, list):
                v[1:] = [0.123, 1.56, 0.7]
                self.res.faults["passed list reused"] += 1
            elif isinstance(v, np.ndarray):
                v[1:] = [0.123, 1.56, 0.7]
                self.res.faults["passed array reused"] += 1

    def passed(self, f, before, args, out):
        if ops.same(ops.freeze(args), ops.freeze(before), 0, 0) is not None:
            self.res.bad("input modified", "%s changed the arguments %s passed to it to %s" % (f.__name__, ops._short(before), ops._short(args)))
        for v in args:
            if isinstance(v, np.ndarray):
                if any(np.may_share_memory(v, w) for w in arrays(out)):
                    self.res.bad("shared", "%s returned (part of) the array passed to it" % f.__name__)
                v[...] = 0.77
                self.res.faults["passed array reused"] += 1
            elif isinstance(v, list):
                v[:] = [0.77] * len(v)
                self.res.faults["passed list reused"] += 1


def run(plan):
    res = Result()
    defs = plan["defs"]
    w = Client(defs)
    w.res = res
    bufs = [ops.dec_x(b) if isinstance(b, dict) else np.array(b) for b in plan["bufs"]]
    taken = {}  # handle name -> functions as first handed out
    lost = set()  # handles whose orbit was reassigned before they were taken
    kept = []  # (value as returned, private copy, what)
    disturbed = again = 0
    touched = {}  # object -> assigned attributes
    trail = ["", ""]

    def take(h, as_list):
        d = defs[h]
        if "m" not in d:
            with w.uni:
                return w.build(h)
        kw = {}
        for k, v in d.get("kw", {}).items():
            kw[k] = (list(v) if as_list else tuple(v)) if isinstance(v, list) else v
        lists_in = [(v, list(v)) for v in kw.values() if isinstance(v, list)]
        with w.uni:
            o = w.obj(d["on"])
            f = getattr(o, d["m"])(**kw)
        for v, before in lists_in:
            if v != before:
                res.bad("input modified", "%s(%s) changed the list passed to it to %s" % (d["m"], d["kw"], v))
            v[1:3] = [0.123, 4.56]  # the client reuses its list
            res.faults["passed list reused"] += 1
        return f

    def name(h):
        d = defs[h]
        return d["m"] if "m" in d else d["f"][1] if "f" in d else "spacetime.four_velocity"

    def bases(h):
        return {defs[h][k] for k in ("on", "via") if k in defs[h]}

    for s in plan["steps"]:
        t = s["t"]
        trail = [trail[1], t + str(s.get("h") and name(s["h"]))]
        res.state(*trail)
        if t == "take":
            h = s["h"]
            if h in taken or bases(h) & set(touched):
                continue
            out = ops.outcome(lambda: taken.__setitem__(h, take(h, s["list"])))
            want = ops.clean_room(defs, {"r": "again", "h": h, "x": 0.5})
            if out[0] == "err" and want[0] == "ok":
                res.bad("handed out", "requesting %s raised %s" % (h, out[1]))
        elif t == "call":
            h = s["h"]
            if h not in taken:
                if bases(h) & set(touched):
                    continue
                if ops.outcome(lambda: taken.__setitem__(h, take(h, False)))[0] == "err":
                    continue
            f = taken[h] if s["c"] is None else taken[h][s["c"]]
            if "buf" in s:
                x = bufs[s["buf"]]
                xj = {"a": x.tolist()}
            else:
                xj = s["x"]
                x = ops.dec_x(xj)
            before = np.array(x, copy=True) if isinstance(x, np.ndarray) else None
            raw = []

            def go():
                raw.append(f(x, *defs[h].get("extra", ())))
                return raw[0]

            with w.uni:
                got = ops.outcome(go)
            if before is not None and not np.array_equal(before, x):
                res.bad("input modified", "calling %s changed the array passed to it" % name(h))
            if isinstance(x, np.ndarray) and raw and any(np.may_share_memory(a, x) for a in arrays(raw[0])):
                res.bad("shared", "%s returned (part of) the array passed to it" % name(h))
            q = {"r": "eval", "h": h, "c": s["c"], "x": xj}
            d = ops.differ(got, ops.clean_room(defs, q))
            res.counts["answers compared"] += 1
            again += disturbed > 0
            if d:
                res.bad("handed out:" + name(h), "held %s of %s, component %s: %s" % (name(h), defs[h].get("on"), s["c"], d))
            if s["keep"] and raw and got[0] == "ok":
                kept.append([raw[0], ops.freeze(raw[0]), "%s[%s]" % (name(h), s["c"])])
        elif t == "value":
            q = s["q"]
            if q.get("o") in touched:
                continue
            raw = []

            def go():
                raw.append(w.answer(q))
                return raw[0]

            with w.uni:
                got = ops.outcome(go)
            d = ops.differ(got, ops.clean_room(defs, q))
            res.counts["answers compared"] += 1
            if d:
                res.bad("handed out:" + q["r"], "%s: %s" % (ops._short(json.dumps(q)), d))
            if raw and got[0] == "ok":
                kept.append([raw[0], ops.freeze(raw[0]), q["r"]])
        elif t == "scribble" and kept:
            k = kept[s["n"] % len(kept)]
            for a in arrays(k[0]):
                if a.flags.writeable and a.dtype.kind == "f":
                    a[...] = -777.25
                    disturbed += 1
                    res.faults["returned array scribbled on"] += 1
            k[1] = ops.freeze(k[0])
        elif t == "overwrite":
            b = bufs[s["buf"]]
            b[...] = np.resize(s["v"], b.shape)
            disturbed += 1
            res.faults["input array overwritten"] += 1
        elif t == "assign":
            if s["o"] in w.objs:
                setattr(w.objs[s["o"]], s["n"], tuple(s["ph"]) if s["n"] == "initial_phases" else s["v"])
                touched.setdefault(s["o"], []).append(s["n"])
                disturbed += 1
                res.faults["attribute reassigned by client"] += 1
        elif t == "gc":
            gc.collect(0)
        elif t == "drop":
            w.objs.pop(s["o"], None)
            touched.pop(s["o"], None)
            disturbed += 1
            res.faults["orbit dropped while its functions are held"] += 1
        # everything held is still what it was
        for v, before, what in kept:
            d = ops.same(ops.freeze(v), before, 0, 0)
            res.counts["held values re-examined"] += 1
            if d:
                res.bad("held value changed", "a value returned by %s changed during a later %s: %s" % (what, t, d))
        # no two held arrays share memory
        if t in ("call", "value") and kept:
            new = arrays(kept[-1][0])
            for v, _, what in kept[:-1]:
                if any(np.may_share_memory(x, y) for x in arrays(v) for y in new):
                    res.bad("shared", "arrays returned by %s and %s share memory" % (what, kept[-1][2]))
        if res.violations:
            break
    res.steps = len(plan["steps"])
    res.sim_time = res.steps
    res.nontrivial = again > 0
    res.sample = {"steps": plan["steps"][:5]}
    return res
