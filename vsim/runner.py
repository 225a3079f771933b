"""Runs a check: many seeded simulated runs over worker processes, then evidence and verdict."""
from . import env
import argparse
import collections
import copy
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import subprocess
import sys
import tempfile
import time

NPROC = int(os.environ.get("VSIM_JOBS", "8"))
PY = sys.executable
HANG = float(os.environ.get("VSIM_HANG", "240"))

CHECKS = {
    "C01": "c01_concurrent",
    "C02": "c02_history",
    "C03": "c03_interrupt",
    "C04": "c04_restart",
    "C05": "c05_plunge",
    "C06": "c06_conserve",
    "C07": "c07_transport",
    "C08": "c08_frames",
    "C09": "c09_animfail",
    "C10": "c10_plots",
    "C11": "c11_process",
    "C12": "c12_handed",
}


def load(prop):
    return importlib.import_module("vsim." + CHECKS[prop])


def run_seed(prop, seed, i):
    h = hashlib.sha256(("%s/%d/%d" % (prop, seed, i)).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Result:
    """What one simulated run did and whether it broke the property."""

    def __init__(self):
        self.violations = []  # (class, message)
        self.counts = collections.Counter()
        self.faults = collections.Counter()
        self.states = set()  # small hashes of distinct interleavings / states
        self.sim_time = 0.0
        self.steps = 0
        self.nontrivial = False
        self.decisions = None
        self.sample = None

    def bad(self, klass, message):
        self.violations.append((klass, message))

    def state(self, *what):
        self.states.add(int.from_bytes(hashlib.blake2b(repr(what).encode(), digest_size=6).digest(), "big"))


def known_findings():
    out = {}
    path = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                parts = dict(w.split("=", 1) for w in line[6:].split(" -- ")[0].split() if "=" in w)
                out[(parts["property"], parts["key"])] = line.split(" -- ", 1)[1]
    return out


def execute(check, plan):
    """One simulated run from a clean process state."""
    from . import universe

    universe.reset_process()
    try:
        return check.run(copy.deepcopy(plan))
    except Exception as e:
        # raised by library code where the check expected an answer: a finding, not a harness error
        tb = e.__traceback__
        names = []
        while tb is not None:
            names.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        if not any(n.startswith(env.PKGDIR) for n in names):
            raise
        res = Result()
        res.bad("raises", "a request that has an answer raises %r" % e)
        return res
    finally:
        universe.reset_process()


# ---------------------------------------------------------------- worker process


def worker(a):
    check = load(a.prop)
    from . import universe

    n_total = check.RUNS[a.tier]
    t0 = universe.wall()
    agg = Result()
    done = nontrivial = 0
    states_dropped = 0
    samples = []
    told = universe.wall()
    n_samples = 0
    for i in range(a.start, n_total, a.step):
        if universe.wall() - t0 > a.budget:
            break
        if universe.wall() - told > 15:
            report(agg, done, nontrivial, samples, "part")
            n_samples += len(samples)
            agg, done, nontrivial, samples, told = Result(), 0, 0, [], universe.wall()
        rng = random.Random(run_seed(a.prop, a.seed, i))
        plan = check.gen(rng, i, a.tier)
        emit({"begin": i})
        res = execute(check, plan)
        done += 1
        nontrivial += bool(res.nontrivial)
        agg.counts.update(res.counts)
        agg.faults.update(res.faults)
        if len(agg.states) < 400000:
            agg.states |= res.states
        agg.sim_time += res.sim_time
        agg.steps += res.steps
        if res.sample is not None and n_samples + len(samples) < 2:
            samples.append({"run": i, "what": res.sample})
        if res.violations:
            if res.decisions is not None:
                plan = check.with_decisions(plan, res.decisions)
            emit({"violation": i, "plan": plan, "violations": res.violations})
            known = known_findings()
            if not all((a.prop, k) in known for k, _ in res.violations):
                break
    report(agg, done, nontrivial, samples, "end")


_reported = {"universes": 0, "evaluated": 0, "reused": 0}


def report(agg, done, nontrivial, samples, how):
    """Hands the parent what was covered since the last report."""
    from . import ops, universe

    now = dict(ops.clean_stats, universes=universe.n_made)
    new = {k: now[k] - _reported[k] for k in _reported}
    _reported.update(now)
    emit(
        {
            how: done,
            "nontrivial": nontrivial,
            "counts": agg.counts,
            "faults": agg.faults,
            "states": sorted(agg.states),
            "sim_time": agg.sim_time,
            "steps": agg.steps,
            "samples": samples,
            "universes": new["universes"],
            "clean": {k: new[k] for k in ("evaluated", "reused")},
        }
    )


_out = None


def emit(d):
    _out.write(json.dumps(d, default=_json) + "\n")
    _out.flush()


def _json(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, set):
        return sorted(v)
    return repr(v)


# ---------------------------------------------------------------- shrinking


def get_path(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def set_path(plan, path, v):
    for k in path[:-1]:
        plan = plan[k]
    plan[path[-1]] = v


def shrink(check, plan, klass, seconds=90, log=None):
    """ddmin over every list the check declares, then the check's own simplifications."""
    t0 = time.time()
    tried = [0]

    def fails(p):
        if time.time() - t0 > seconds:
            return False
        tried[0] += 1
        try:
            res = execute(check, p)
        except Exception:
            return False
        return any(k == klass for k, _ in res.violations)

    changed = True
    rounds = 0
    while changed and time.time() - t0 < seconds and rounds < 6:
        changed = False
        rounds += 1
        for path in check.lists(plan):
            try:
                items = get_path(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            n = 2
            while len(items) >= 1 and time.time() - t0 < seconds:
                size = max(1, len(items) // n)
                removed = False
                for k in range(0, len(items), size):
                    cand = copy.deepcopy(plan)
                    set_path(cand, path, items[:k] + items[k + size :])
                    if fails(cand):
                        plan = cand
                        items = get_path(plan, path)
                        changed = removed = True
                        n = max(2, n - 1)
                        break
                if not removed:
                    if size == 1:
                        break
                    n = min(len(items), n * 2)
        if hasattr(check, "simplify"):
            for cand in check.simplify(plan):
                if fails(cand):
                    plan = cand
                    changed = True
    return plan, tried[0]


# ---------------------------------------------------------------- parent process


def spawn(args, scratch, out_fd):
    e = dict(os.environ)
    e["VSIM_SCRATCH"] = scratch
    e["PYTHONPATH"] = env.VERIF
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = e.get("VSIM_HASHSEED", "0")
    e["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    e["TMPDIR"] = scratch
    return subprocess.Popen(
        [PY, "-W", "ignore", "-m", "vsim.main"] + args + ["--fd", str(out_fd)],
        env=e,
        cwd=scratch,
        pass_fds=[out_fd],
        stdin=subprocess.DEVNULL,
        stdout=subprocess.DEVNULL,
        stderr=open(os.path.join(scratch, "stderr-%d" % out_fd), "wb"),
    )


def sub(args, scratch, timeout):
    """Run a helper subcommand and return its JSON lines (None if it hung)."""
    r, w = os.pipe()
    p = spawn(args, scratch, w)
    os.close(w)
    buf = b""
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            p.kill()
            p.wait()
            os.close(r)
            return None
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    p.wait()
    os.close(r)
    return [json.loads(x) for x in buf.splitlines() if x.strip()]


def run_check(prop, tier, seed):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vsim-%s-" % prop)
    os.makedirs(os.path.join(scratch, "mpl"), exist_ok=True)
    try:
        return _run_check(prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


CRASH = (-4, -6, -7, -8, -11)


def _run_check(prop, tier, seed, scratch, t0):
    check = load(prop)
    budget = check.BUDGET[tier]

    def start(w, first, budget):
        r, wr = os.pipe()
        p = spawn(
            ["worker", prop, "--tier", tier, "--seed", str(seed), "--start", str(first), "--step", str(NPROC), "--budget", str(budget)],
            scratch,
            wr,
        )
        os.close(wr)
        return r, {"p": p, "buf": b"", "last": time.time(), "run": None, "end": None, "w": w, "fd": wr}

    live = dict(start(w, w, budget) for w in range(NPROC))
    violations, ends, errors, hangs, crashes = [], [], [], [], []
    new_violation = False
    known = known_findings()
    while live:
        ready, _, _ = select.select(list(live), [], [], 1.0)
        now = time.time()
        for r in ready:
            s = live[r]
            d = os.read(r, 1 << 16)
            if not d:
                s["p"].wait()
                if s["end"] is None and not s.get("stopped") and s["p"].returncode in CRASH and s["run"] is not None and len(crashes) < 24:
                    # the interpreter itself crashed (CPython 3.12's tracing can): leave this run out
                    crashes.append(s["run"])
                    sys.stderr.write("note: the interpreter died with signal %d in run %d, which is left out\n" % (-s["p"].returncode, s["run"]))
                    left = budget - (time.time() - t0)
                    os.close(r)
                    del live[r]
                    nr, s2 = start(s["w"], s["run"] + NPROC, max(left, 1))
                    live[nr] = s2
                    continue
                if s["end"] is None and not s.get("stopped"):
                    err = b""
                    try:
                        err = open(os.path.join(scratch, "stderr-%d" % s["fd"]), "rb").read()[-3000:]
                    except OSError:
                        pass
                    errors.append("worker %d ended with %s at run %s\n%s" % (s["w"], s["p"].returncode, s["run"], err.decode(errors="replace")))
                os.close(r)
                del live[r]
                continue
            s["last"] = now
            s["buf"] += d
            while b"\n" in s["buf"]:
                line, s["buf"] = s["buf"].split(b"\n", 1)
                m = json.loads(line)
                if "begin" in m:
                    s["run"] = m["begin"]
                elif "violation" in m:
                    violations.append(m)
                    if not all((prop, k) in known for k, _ in m["violations"]):
                        new_violation = True
                elif "end" in m:
                    s["end"] = m
                    ends.append(m)
                elif "part" in m:
                    ends.append(dict(m, end=m["part"]))
        for r, s in list(live.items()):
            if now - s["last"] > HANG:
                s["p"].kill()
                s["stopped"] = True
                hangs.append(s["run"])
        if new_violation:
            # one violation is enough: stop the others
            for r, s in live.items():
                s["stopped"] = True
                s["p"].kill()
    if errors and not new_violation:
        sys.stderr.write("HARNESS ERROR\n" + errors[0] + "\n(%d workers failed)\n" % len(errors))
        return 2
    outdir = os.path.join(env.OUT, "replays")
    os.makedirs(outdir, exist_ok=True)
    status = 0
    reported = None
    known_seen = {}
    fresh = []
    for v in sorted(violations, key=lambda v: v["violation"]):
        keys = [(k, msg) for k, msg in v["violations"] if (prop, k) not in known]
        for k, msg in v["violations"]:
            if (prop, k) in known:
                known_seen.setdefault(k, (v["violation"], msg))
        if keys:
            fresh.append((v, keys[0]))
    for i in hangs:
        rng = random.Random(run_seed(prop, seed, i))
        fresh.append(({"violation": i, "plan": check.gen(rng, i, tier), "hang": True}, ("hang", "the run does not finish")))
    if fresh:
        v, (klass, msg) = fresh[0]
        path = os.path.join(outdir, "%s-seed%d-run%d.json" % (prop, seed, v["violation"]))
        rec = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "run": v["violation"],
            "class": klass,
            "violation": msg,
            "plan": v["plan"],
        }
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=_json)
        if v.get("hang"):
            again = sub(["replay", path], scratch, HANG)
            if again is not None:
                sys.stderr.write("HARNESS ERROR: run %d stalled once and finished when repeated\n" % v["violation"])
                return 2
            reproduced = True
        else:
            mini = path + ".min"
            out = sub(["shrink", path, "--out", mini], scratch, 150)
            reproduced = False
            if out and os.path.exists(mini):
                again = sub(["replay", mini], scratch, 120)
                if again and any(k == klass for k, _ in again[-1].get("violations", [])):
                    os.replace(mini, path)
                    reproduced = True
                    msg = [m for k, m in again[-1]["violations"] if k == klass][0]
            if not reproduced:
                again = sub(["replay", path], scratch, 120)
                reproduced = bool(again and any(k == klass for k, _ in again[-1].get("violations", [])))
                if os.path.exists(mini):
                    os.remove(mini)
        print("violation of %s in simulated run %d (seed %d), class %s:" % (prop, v["violation"], seed, klass))
        print("  " + str(msg)[:1500])
        print("  replay reproduces in a fresh process: %s" % ("yes" if reproduced else "no"))
        print("  replay with: ./check %s --replay %s" % (prop, path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status = 1
    for k in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s [%s; run %d]" % (prop, known[(prop, k)], k, known_seen[k][0]))
    # ---- evidence
    wall = time.time() - t0
    runs = sum(e["end"] for e in ends)
    counts, faults = collections.Counter(), collections.Counter()
    states = set()
    for e in ends:
        counts.update(e["counts"])
        faults.update(e["faults"])
        states.update(e["states"])
    extra = {}
    if status == 0 and hasattr(check, "finish"):
        extra, bad = check.finish(tier, seed, scratch)
        if bad:
            sys.stderr.write("HARNESS ERROR: " + bad + "\n")
            return 2
    if status == 0 and runs < check.RUNS[tier] * 0.02 + 1:
        sys.stderr.write("HARNESS ERROR: only %d runs\n" % runs)
        return 2
    coverage = {
        "evaluations": runs,
        "distinct_nontrivial": sum(e["nontrivial"] for e in ends),
        "rule": check.RULE,
        "samples": [s for e in sorted(ends, key=lambda e: str(e["samples"])[:40]) for s in e["samples"]][:3] or ["(stopped at the first violation)"],
        "simulated_runs": runs,
        "runs_lost_to_interpreter_crashes": sorted(crashes),
        "runs_planned": check.RUNS[tier],
        "seeds_per_hour": int(runs / wall * 3600),
        "simulated_time": {"unit": check.TIME_UNIT, "covered": round(sum(e["sim_time"] for e in ends), 3)},
        "scheduling_points_or_steps": sum(e["steps"] for e in ends),
        "faults_injected": dict(sorted(faults.items())),
        "distinct_states": len(states),
        "state_measure": check.STATE_MEASURE,
        "checks_evaluated": dict(sorted(counts.items())),
        "universes_created": sum(e["universes"] for e in ends),
        "clean_room_answers": {k: sum(e["clean"][k] for e in ends) for k in ("evaluated", "reused")},
        "real_components": check.REAL,
        "stubbed_components": check.STUBS,
        "known_findings_seen": sorted(known_seen),
    }
    coverage.update(extra)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": 1 if status else 0,
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    path = os.path.join(env.VERIF, "evidence", prop + ".json")
    text = json.dumps(ev, indent=1, default=_json)
    if len(text) > 60000:
        coverage["samples"] = [str(s)[:2000] for s in coverage["samples"]]
        text = json.dumps(ev, indent=1, default=_json)
    with open(path + ".tmp", "w") as f:
        f.write(text + "\n")
    os.replace(path + ".tmp", path)
    print("%s %s seed=%d: %d runs, %d states, %.1f s, %s" % (prop, tier, seed, runs, len(states), wall, "VIOLATED" if status else "held"))
    return status


def main():
    global _out
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "worker", "replay", "shrink", "one"])
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--step", type=int, default=1)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--fd", type=int)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--run", type=int)
    a = ap.parse_args()
    if a.fd is not None:
        _out = os.fdopen(a.fd, "w")
    if a.cmd == "check" and a.replay:
        scratch = tempfile.mkdtemp(prefix="vsim-")
        try:
            out = sub(["replay", a.replay], scratch, HANG)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if out is None:
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        if not out:
            return 2
        for k, m in out[-1]["violations"]:
            print("%s: %s" % (k, m))
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1 if out[-1]["violations"] else 0
    if a.cmd == "check":
        return run_check(a.prop, a.tier, a.seed)
    if a.cmd == "worker":
        worker(a)
        return 0
    if a.cmd in ("replay", "shrink"):
        rec = json.load(open(a.prop))
        check = load(rec["property"])
        if a.cmd == "replay":
            res = execute(check, rec["plan"])
            emit({"violations": res.violations})
        else:
            plan, tried = shrink(check, rec["plan"], rec["class"])
            rec["plan"] = plan
            rec["shrink_attempts"] = tried
            rec["violation"] = dict(reversed(execute(check, plan).violations)).get(rec["class"], rec["violation"])
            with open(a.out, "w") as f:
                json.dump(rec, f, indent=1, default=_json)
            emit({"tried": tried})
        return 0
    if a.cmd == "one":  # debugging: run one index in this process
        check = load(a.prop)
        rng = random.Random(run_seed(a.prop, a.seed, a.run))
        plan = check.gen(rng, a.run, a.tier)
        res = execute(check, plan)
        print(json.dumps(plan, default=_json)[:3000])
        print(res.violations, dict(res.counts), dict(res.faults), len(res.states), res.steps)
        return 0
