"""C07: orbits survive transport, and sharded evaluation is exact."""
from . import c03_interrupt, ops, sched
from .runner import Result
import collections
import copy
import gc
import heapq
import io
import json
import math
import pickle
import random
import sys

import numpy as np

RUNS = {"quick": 1800, "thorough": 50000}
BUDGET = {"quick": 170, "thorough": 1700}
RULE = (
    "each run is one simulated cluster: a coordinator holding one to three orbits splits time series "
    "into shards and has them evaluated by 1-4 nodes over a network that loses, duplicates, delays and "
    "reorders messages and partitions, while nodes and the coordinator crash and restart, keep, copy "
    "and pass on the orbits they were sent and answer unrelated requests; after faults stop the job must "
    "finish within a bounded time.  Reassembled series are compared with one call on the whole array, "
    "every other answer of a transported orbit with the clean room's answer of the original.  "
    "Non-trivial: at least one message fault or crash was injected and at least one series reassembled."
)
TIME_UNIT = "simulated network seconds"
STATE_MEASURE = "distinct (sequence of the first 60 cluster events: kind, node, orbit)"
REAL = ["every kerrgeopy module (executed from /repo)", "numpy", "scipy", "pickle and copy"]
STUBS = ["the cluster: nodes (universes), network, timers, durable storage", "other work of the nodes", "clock read by library code"]
ASSUMPTIONS = [
    "shards and whole agree to 1e-11 relative plus four times the effect of one rounding of the time (numerical four-velocities: to 1e-7), because numpy's scalar and array loops round differently",
    "nodes run the same library version; closures are not sent, only orbits",
]
METHODS = ["trajectory"] * 6 + ["four_velocity"] * 2 + ["trajectory_deltas", "numerical_four_velocity"]
STOP = 60.0  # simulated seconds after which no fault is injected
LIMIT = 400.0  # by when everything must be finished


def gen_series(rng):
    k = rng.random()
    n = rng.choice([1, 2, 3, 7, 16, 50, 120, 333, 1001 if rng.random() < 0.3 else 40])
    a = ops.r6(rng.uniform(-9, 5))
    if rng.random() < 0.06:  # long series
        n = rng.choice([2001, 2600, 5000, 10001, 20000]) if rng.random() < 0.5 else 2 ** rng.randrange(8, 14) + rng.choice([-1, 0, 1])
    if k < 0.5:
        return {"kind": "line", "lo": a, "hi": a + ops.r6(rng.uniform(0.1, 12)), "n": n}
    if k < 0.75:
        return {"kind": "random", "seed": rng.randrange(1 << 30), "n": n, "lo": a, "hi": a + rng.choice([1, 10, 60])}
    if k < 0.85:
        return {"kind": "repeats", "seed": rng.randrange(1 << 30), "n": n, "lo": a, "hi": a + 5}
    return {"kind": "int", "lo": int(a), "n": min(n, 60)}


def series(s):
    if s["kind"] == "line":
        return np.linspace(s["lo"], s["hi"], s["n"])
    if s["kind"] == "int":
        return np.arange(s["lo"], s["lo"] + s["n"])
    r = np.random.RandomState(s["seed"] % (1 << 31))
    x = np.round(r.uniform(s["lo"], s["hi"], s["n"]), 6)
    if s["kind"] == "repeats":
        x = np.concatenate([x, x[: len(x) // 2], -x[:3]])
    return x


SHAPES = ["slice", "slice", "scalar", "float", "strided", "reversed", "2d", "readonly", "fancy", "0d", "fortran"]


def gen(rng, i, tier):
    n_obj = rng.choice([1, 1, 2, 3])
    defs, objs, _ = ops.gen_defs(rng, n_obj, 0, rng.choice([("stable",), ("plunge",), ("stable", "plunge", "orbit", "from_constants"), ("orbit",)]))
    jobs = []
    for _ in range(rng.randrange(1, 4)):
        o = rng.choice(objs)
        m = rng.choice(METHODS)
        h = ops.gen_handle(rng, o, defs[o])
        kw = {k: v for k, v in h["kw"].items() if k == "initial_phases"}
        if m == "trajectory" and "M" in defs[o]["kw"] and rng.random() < 0.4:
            kw["distance_units"], kw["time_units"] = rng.choice(["natural", "mks", "cgs", "au", "km"]), rng.choice(["natural", "mks", "cgs", "days"])
        if m == "numerical_four_velocity" and rng.random() < 0.5:
            kw["dx"] = rng.choice([1e-6, 1e-5])
        s = gen_series(rng)
        shards = rng.choice([1, 2, 3, 5, 9])
        jobs.append({"o": o, "m": m, "kw": kw, "c": rng.randrange(4), "x": s, "shards": shards, "seed": rng.randrange(1 << 30)})
    probes = []
    for _ in range(rng.randrange(1, 5)):
        o = rng.choice(objs)
        k = rng.random()
        if k < 0.4:
            probes.append({"r": "attrs", "o": o})
        elif k < 0.7:
            probes.append(ops.gen_call(rng, o, defs[o]) or {"r": "attrs", "o": o})
        else:
            h = ops.gen_handle(rng, o, defs[o])
            n = "h%d" % len(defs)
            defs[n] = h
            probes.append({"r": "again", "h": n, "x": ops.gen_x(rng) if h["m"][0] != "_" else ops.r6(rng.uniform(-5, 5))})
    work = []
    for _ in range(rng.randrange(0, 4)):
        q = None
        while q is None:
            q = ops.gen_req(rng, {k: v for k, v in defs.items() if k in objs}, objs, [], slow=False)
        work.append(q)
    nodes = rng.randrange(1, 5)
    faults = []
    for _ in range(rng.choice([0, 1, 2, 4, 7])):
        t = round(rng.expovariate(1 / 8.0), 3)
        k = rng.choice(["crash", "crash", "crash", "partition", "stall", "coordinator crash", "drop copies"])
        faults.append({"t": t, "kind": k, "node": rng.randrange(nodes), "for": round(rng.expovariate(1 / 6.0), 3)})
    rates = {"loss": rng.choice([0, 0.05, 0.2, 0.4]), "dup": rng.choice([0, 0.1, 0.4]), "delay": rng.choice([0.05, 0.5, 3])}
    return {"defs": defs, "objs": objs, "jobs": jobs, "probes": probes, "work": work, "nodes": nodes, "faults": faults, "rates": rates, "net": rng.randrange(1 << 30), "mid": rng.random() < 0.3, "use": rng.random() < 0.5}


def lists(plan):
    return [("faults",), ("jobs",), ("probes",), ("work",)]


def simplify(plan):
    for k, v in (("loss", 0), ("dup", 0), ("delay", 0.05)):
        if plan["rates"][k] != v:
            yield dict(plan, rates=dict(plan["rates"], **{k: v}))
    if plan["nodes"] > 1:
        yield dict(plan, nodes=1, faults=[dict(f, node=0) for f in plan["faults"]])
    if plan["mid"]:
        yield dict(plan, mid=False)
    if plan["use"]:
        yield dict(plan, use=False)
    for i, j in enumerate(plan["jobs"]):
        for k, v in (("shards", 1), ("shards", 2), ("kw", {})):
            if j[k] != v and not (k == "shards" and j[k] < v):
                yield dict(plan, jobs=plan["jobs"][:i] + [dict(j, **{k: v})] + plan["jobs"][i + 1 :])


# ---------------------------------------------------------------- shards


def split(job):
    """The shards of a job: (indices into the series, how they are presented)."""
    x = series(job["x"])
    rng = random.Random(job["seed"])
    n = len(x)
    idx = list(range(n))
    if rng.random() < 0.35:
        rng.shuffle(idx)
    k = min(job["shards"], n)
    cuts = sorted(rng.sample(range(1, n), k - 1)) if k > 1 else []
    out = []
    for a, b in zip([0] + cuts, cuts + [n]):
        shape = rng.choice(SHAPES)
        out.append({"idx": idx[a:b], "shape": shape})
    return x, out


def evaluate(f, x, shape):
    """One shard, presented to the library in some form; the values in the order of x."""
    if shape == "scalar":
        return np.array([f(v) for v in x])
    if shape == "float":
        return np.array([f(v.item()) for v in x])
    if shape == "0d":
        return np.array([f(np.array(v)) for v in x]).reshape(len(x))
    if shape == "strided":
        big = np.full(3 * len(x), 1e3, dtype=x.dtype)
        big[1::3] = x
        return np.asarray(f(big[1::3]))
    if shape == "reversed":
        return np.asarray(f(x[::-1]))[::-1]
    if shape in ("2d", "fortran") and len(x) % 2 == 0 and len(x):
        y = x.reshape(2, -1)
        if shape == "fortran":
            y = np.asfortranarray(y)
        return np.asarray(f(y)).reshape(-1)
    if shape == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return np.asarray(f(y))
    if shape == "fancy":
        return np.asarray(f(np.concatenate([x, x[:1]])))[: len(x)]
    return np.asarray(f(x))


# ---------------------------------------------------------------- the cluster


class Stuck(Exception):
    """An orbit that can not be serialised, restored or copied."""


def clone(how, o):
    try:
        return how(o)
    except Exception as e:
        raise Stuck("an orbit can not be copied: %r" % e) from None


class Node:
    def __init__(self, defs):
        self.defs = defs
        self.world = None
        self.boot()

    def boot(self):
        self.world = ops.World(self.defs)
        self.kept = {}  # orbit name -> the copy this node holds
        self.functions = {}  # job -> functions requested from a copy for an earlier shard
        self.up = True
        self.stalled = 0.0

    def crash(self):
        self.world, self.kept, self.functions, self.up = None, {}, {}, False


class Cluster:
    def __init__(self, plan, res):
        self.plan, self.res = plan, res
        self.rng = random.Random(plan["net"])
        self.now = 0.0
        self.q = []
        self.seq = 0
        self.nodes = [Node(plan["defs"]) for _ in range(plan["nodes"])]
        self.cut = {}  # node -> time its partition ends
        self.trail = []
        # the coordinator
        self.home = None
        self.disk = {}  # durable: orbit name -> pickled bytes
        self.results = {}  # durable: (job, shard) -> values
        self.tasks = {}
        self.tries = collections.Counter()

    # -- events
    def at(self, t, *ev):
        self.seq += 1
        heapq.heappush(self.q, (t, self.seq, ev))

    def send(self, node, to_node, msg):
        """One message over the link between the coordinator and a node."""
        r = self.plan["rates"]
        calm = self.now > STOP
        if not calm and self.cut.get(node, 0) > self.now:
            self.res.faults["message lost in a partition"] += 1
            return
        if not calm and self.rng.random() < r["loss"]:
            self.res.faults["message lost"] += 1
            return
        copies = 1
        if not calm and self.rng.random() < r["dup"]:
            self.res.faults["message duplicated"] += 1
            copies = 2
        for _ in range(copies):
            d = 0.01 + (self.rng.expovariate(1 / r["delay"]) if not calm else 0.02)
            if d > 1:
                self.res.faults["message delayed"] += 1
            self.at(self.now + d, "deliver", node, to_node, msg)

    # -- serialisation
    def pack(self, o):
        try:
            return self._pack(o)
        except Exception as e:
            raise Stuck("an orbit can not be sent or stored: %r" % e) from None

    def _pack(self, o):
        k = self.rng.randrange(9)
        if k <= 5:
            self.res.counts["orbits pickled"] += 1
            return pickle.dumps(o, protocol=k)
        if k == 6:
            o = copy.deepcopy(o)
        elif k == 7:
            o = copy.copy(o)
        else:
            return pickle.dumps([o, o], protocol=4)
        self.res.counts["orbits copied"] += 1
        return pickle.dumps(o)

    @staticmethod
    def unpack(b):
        try:
            o = pickle.loads(b)
        except Exception as e:
            raise Stuck("a stored orbit can not be restored: %r" % e) from None
        return o[0] if isinstance(o, list) else o

    def boot_home(self):
        """The coordinator starts: from the definitions the first time, from disk afterwards."""
        self.home = ops.World(self.plan["defs"])
        with self.home.uni:
            for n in self.plan["objs"]:
                if n in self.disk:
                    self.home.objs[n] = self.unpack(self.disk[n])
                    self.res.counts["orbits restored"] += 1
                else:
                    if ops.outcome(lambda: self.home.obj(n))[0] == "err":
                        continue
                    o = self.home.obj(n)
                    if self.plan["use"]:
                        ops.outcome(lambda: [f(0.3) for f in o.trajectory()])
                        ops.outcome(lambda: o.constants_of_motion("mks"))
                    self.disk[n] = self.mid_pickle(n, o) if self.plan["mid"] else self.pack(o)

    def mid_pickle(self, n, o):
        """Serialised by another caller in the middle of one of its own methods."""
        rng = self.rng
        got = []
        at = 1 + int(rng.expovariate(1 / 40.0))

        def note(frame):
            if t.n == at or (t.n > at and not got):
                tr = sys.gettrace()
                sys.settrace(None)
                try:
                    got.append(self.pack(o))
                except Stuck as e:
                    got.append(e)
                sys.settrace(tr)

        t = sched.Tracer(on_event=note)
        ask = rng.choice([lambda: [f(np.linspace(0, 1, 5)) for f in o.trajectory((1, 2, 3, 4))], lambda: [f(0.5) for f in o.four_velocity((1, 2, 3, 4))], lambda: o.constants_of_motion("mks"), lambda: o.trajectory_deltas((1, 2, 3, 4))[1](0.2), lambda: getattr(o, "mino_frequencies", o.constants_of_motion)(), lambda: o.numerical_four_velocity()[1](0.3)])
        t.run(lambda: ops.outcome(ask))
        self.res.faults["orbit serialised in the middle of a call"] += bool(got)
        if got and isinstance(got[0], Stuck):
            raise got[0]
        return got[0] if got else self.pack(o)

    # -- the run
    def start(self):
        self.boot_home()
        for j, job in enumerate(self.plan["jobs"]):
            if job["o"] not in self.disk:
                continue
            with self.home.uni:
                ok = ops.outcome(lambda: getattr(self.home.obj(job["o"]), job["m"])(**ops.dec_kw(job["kw"])))[0] == "ok"
            if not ok:
                continue
            x, shards = split(job)
            for k, s in enumerate(shards):
                self.tasks[j, k] = {"kind": "shard", "o": job["o"], "x": x[s["idx"]], "shape": s["shape"], "job": job, "idx": s["idx"]}
        for k, q in enumerate(self.plan["probes"]):
            o = q.get("o") or self.plan["defs"][q["h"]]["on"]
            if o in self.disk:
                self.tasks["probe", k] = {"kind": "probe", "o": o, "q": q}
        for k in self.tasks:
            self.at(self.rng.random(), "assign", k)
        for f in self.plan["faults"]:
            if f["t"] < STOP:
                self.at(f["t"], "fault", f)
        for q in self.plan["work"]:
            self.at(self.rng.expovariate(1 / 10.0), "work", self.rng.randrange(len(self.nodes)), q)

    def run(self):
        self.start()
        while self.q and len(self.results) < len(self.tasks) and not self.res.violations:
            t, _, ev = heapq.heappop(self.q)
            if t > LIMIT:
                break
            self.now = t
            sched.clock[0] = 1_700_000_000.0 + t
            self.res.steps += 1
            self.trail.append((ev[0], ev[1] if isinstance(ev[1], int) else "", ev[1]["kind"] if ev[0] == "fault" else ""))
            getattr(self, "on_" + ev[0])(*ev[1:])
        self.res.sim_time = self.now
        left = [k for k in self.tasks if k not in self.results]
        if left and not self.res.violations:
            self.res.bad("not finished", "%s not finished at simulated time %.1f although no fault was injected after %.0f" % (left[:3], self.now, STOP))

    def on_assign(self, key):
        if key in self.results:
            return
        self.tries[key] += 1
        node = self.rng.randrange(len(self.nodes))
        task = self.tasks[key]
        # the orbit itself is sent, unless the node was sent it before (then it may have lost it)
        send_it = self.tries[key] > 1 or self.rng.random() < 0.8
        if send_it:
            with self.home.uni:
                body = self.pack(self.home.obj(task["o"])) if self.rng.random() < 0.7 else self.disk[task["o"]]
        else:
            body = None
        self.send(node, True, {"key": key, "orbit": body, "hops": 0})
        self.at(self.now + 4.0 + (3 if self.now < STOP else 0), "assign", key)

    def on_deliver(self, node, to_node, msg):
        if to_node:
            n = self.nodes[node]
            if not n.up:
                self.res.faults["message to a crashed node"] += 1
                return
            if n.stalled > self.now:
                self.at(n.stalled, "deliver", node, True, msg)
                return
            self.handle(node, n, msg)
        elif msg["key"] not in self.results:
            if msg["got"] is None:
                return  # the node did not know the orbit: the timer will send it again
            self.accept(msg["key"], pickle.loads(msg["got"]))
        else:
            self.res.faults["result received again"] += 1
            self.accept(msg["key"], pickle.loads(msg["got"]), again=True) if msg["got"] is not None else None

    def handle(self, i, n, msg):
        key = msg["key"]
        task = self.tasks[key]
        with n.world.uni:
            name = task["o"]
            if msg["orbit"] is not None:
                o = self.unpack(msg["orbit"])
                keep = self.rng.random()
                if keep < 0.5:
                    n.kept[name] = o
                elif keep < 0.6:
                    n.kept[name] = clone(copy.deepcopy, o)
                elif keep < 0.7:
                    n.kept[name] = clone(copy.copy, o)
                if name in n.kept and self.rng.random() < 0.3:
                    o = n.kept[name]
            elif name in n.kept:
                o = n.kept[name]
                self.res.counts["answered from a kept copy"] += 1
            else:
                self.send(i, False, {"key": key, "got": None})
                return
            if msg["hops"] < 2 and len(self.nodes) > 1 and self.rng.random() < 0.1:
                # passed on to another node, by a copy of the copy
                self.res.counts["passed on by a node"] += 1
                other = self.rng.randrange(len(self.nodes))
                self.send(other, True, {"key": key, "orbit": self.pack(o), "hops": msg["hops"] + 1})
                return
            if task["kind"] == "probe":
                got = ops.outcome(lambda: self.probe(n.world, o, task["q"]))
            else:
                job = task["job"]
                if key[0] in n.functions and self.rng.random() < 0.5:
                    h = n.functions[key[0]]
                    self.res.counts["shards evaluated with functions of an earlier shard"] += 1
                else:
                    h = getattr(o, job["m"])(**ops.dec_kw(job["kw"]))
                    if self.rng.random() < 0.6:
                        n.functions[key[0]] = h
                got = ops.outcome(lambda: evaluate(h[job["c"]], task["x"], task["shape"]))
                del h
            del o
        self.send(i, False, {"key": key, "got": pickle.dumps(got)})

    @staticmethod
    def probe(world, o, q):
        """A request answered by the transported orbit instead of the defined one."""
        name = q.get("o") or world.defs[q["h"]]["on"]
        hold = world.objs
        world.objs = {name: o}
        try:
            return world.answer(q)
        finally:
            world.objs = hold

    def accept(self, key, got, again=False):
        task = self.tasks[key]
        res = self.res
        if task["kind"] == "probe":
            want = ops.clean_room(self.plan["defs"], task["q"])
            d = ops.differ(got, want)
            res.counts["answers of transported orbits compared"] += 1
            if d:
                res.bad("transported:" + task["q"]["r"], "%s asked of a transported orbit: %s" % (ops._short(json.dumps(task["q"])), d))
        elif got[0] == "err":
            res.bad("shard", "a shard of %s (%s) raised %s on a transported orbit" % (task["job"], task["shape"], got[1]))
        elif len(got[1]) != len(task["idx"]):
            res.bad("shard", "a shard of %d times (%s) gave %d values" % (len(task["idx"]), task["shape"], len(got[1])))
        if again:
            if task["kind"] == "shard" and not res.violations:
                d = ops.same(got[1], self.results[key], 1e-6 if task["job"]["m"].startswith("num") else 1e-9, 1e-6 if task["job"]["m"].startswith("num") else 1e-9)
                if d and task["shape"] not in ("scalar", "float", "0d"):
                    res.bad("repeat", "the same shard evaluated twice differs: " + d)
            return
        self.results[key] = got[1]

    def on_work(self, i, q):
        n = self.nodes[i]
        if n.up:
            self.res.faults["unrelated work on a node"] += 1
            d = ops.differ(n.world.ask(q), ops.clean_room(self.plan["defs"], q))
            if d:
                self.res.bad("other work", "%s asked of a node: %s" % (ops._short(json.dumps(q)), d))

    def on_fault(self, f):
        k, n = f["kind"], self.nodes[f["node"]]
        self.res.faults[k] += 1
        if k == "crash":
            n.crash()
            gc.collect(0)
            self.at(self.now + f["for"], "restart", f["node"])
        elif k == "partition":
            self.cut[f["node"]] = self.now + f["for"]
        elif k == "stall":
            n.stalled = self.now + f["for"]
        elif k == "drop copies":
            n.kept = {}
        else:
            # volatile state of the coordinator is gone, results and orbits are on disk
            self.home = None
            self.boot_home()
            if self.rng.random() < 0.5:
                with self.home.uni:
                    self.disk = {m: self.pack(self.home.obj(m)) for m in self.disk}

    def on_restart(self, i):
        if not self.nodes[i].up:
            self.nodes[i].boot()
            self.res.faults["restart"] += 1


def tolerance(job, f, x, want):
    """What one rounding of the time does to the value, four times, plus rounding of the value."""
    x = np.asarray(x, float)
    eps = 4e-16 * (1 + np.abs(x))
    with np.errstate(all="ignore"):
        sens = np.abs(np.asarray(f(x + eps)) - np.asarray(f(x - eps)))
    rel = 1e-7 if job["m"] == "numerical_four_velocity" else 1e-11
    scale = np.abs(want)
    if job["m"] == "numerical_four_velocity":
        fin = scale[np.isfinite(scale)]
        scale = np.maximum(scale, fin.max() if len(fin) else 0)
    return rel * (1 + scale) + 4 * np.nan_to_num(sens, nan=np.inf)


def run(plan):
    res = Result()
    c = Cluster(plan, res)
    with np.errstate(all="ignore"):
        try:
            c.run()
        except Stuck as e:
            res.bad("not transportable", str(e))
        if not res.violations:
            reassemble(plan, res, c)
    res.state(tuple(c.trail[:60]))
    n_faults = sum(v for k, v in res.faults.items())
    res.nontrivial = n_faults > 0 and res.counts["series reassembled"] > 0
    res.sample = {"objs": {o: plan["defs"][o] for o in plan["objs"]}, "jobs": plan["jobs"], "faults": plan["faults"]}
    return res


def reassemble(plan, res, c):
    w = ops.World(plan["defs"])
    for j, job in enumerate(plan["jobs"]):
        keys = [k for k in c.tasks if k[0] == j]
        if not keys:
            continue
        x = series(job["x"])
        with w.uni:
            f = getattr(w.obj(job["o"]), job["m"])(**ops.dec_kw(job["kw"]))[job["c"]]
            want = np.asarray(f(x.copy()), float)
            tol = tolerance(job, f, x, want)
        got = np.full(len(x), np.nan)
        shapes = np.empty(len(x), object)
        for k in keys:
            got[c.tasks[k]["idx"]] = c.results[k]
            shapes[c.tasks[k]["idx"]] = c.tasks[k]["shape"]
        res.counts["series reassembled"] += 1
        res.counts["values compared"] += len(x)
        if want.shape != x.shape:
            res.bad("whole", "one call on %d times gave an array of shape %s" % (len(x), want.shape))
            return
        wrong = (np.isnan(got) != np.isnan(want)) & np.isfinite(tol)
        wrong |= np.isfinite(want) & np.isfinite(got) & ~(np.abs(got - want) <= tol)
        if wrong.any():
            i = int(np.argmax(wrong))
            res.bad("reassembly", "component %d of %s(%s) of %s at time %r: %r from a shard (%s), %r from one call on the whole array of %d" % (job["c"], job["m"], job["kw"], job["o"], x[i].item(), got[i].item(), shapes[i], want[i].item(), len(x)))
            return
