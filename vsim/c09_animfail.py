"""C09: a failed animation is reported and leaves nothing behind."""
from . import ambient, c08_frames, env, ops, sched, stage
from .runner import Result
import contextlib
import os
import random
import shutil
import sys
import tempfile

import matplotlib.pyplot as plt

RUNS = {"quick": 900, "thorough": 25000}
BUDGET = {"quick": 170, "thorough": 1700}
RULE = (
    "each run makes one to three animations in a row of a seeded orbit, each with at most one seeded "
    "fault - encoder missing / not startable / dying / rejecting its input / out of disk space / "
    "failing at the end, unwritable output, a caller's function, the drawing of a frame, the pipe or "
    "the progress bar failing, or an interrupt / failing allocation at a seeded library line - while "
    "other pyplot users act and other callers make (failing) animations between frames, and checks "
    "outcome, figures, encoder processes and process-wide settings; the last animation is repeated "
    "without fault and judged frame by frame.  Non-trivial: at least one fault fired."
)
TIME_UNIT = "Mino time animated"
STATE_MEASURE = "distinct (fault kind and detail, stage of the animation, options, what happened between frames)"
REAL = ["every kerrgeopy module (executed from /repo)", "numpy", "scipy", "matplotlib figures, FuncAnimation and FFMpegWriter", "tqdm"]
STUBS = ["encoder process (subprocess.Popen) and its pipe", "Agg rendering of frames", "other users of pyplot", "delivery of interrupts and failing allocations", "standard error"]
ASSUMPTIONS = [
    "an interrupt that arrives while the animation is already being cleaned up (after its encoder has been told to finish) is outside the property",
    "the encoder reads its input to the end or stops reading for good",
]

EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "Cancelled": sched.Cancelled,
    "OSError": OSError,
    "ValueError": ValueError,
    "StopIteration": StopIteration,
    "GeneratorExit": GeneratorExit,
    "SystemExit": SystemExit,
    "RuntimeError": RuntimeError,
    "ZeroDivisionError": ZeroDivisionError,
}
HARD = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "Cancelled", "OSError", "SystemExit"]


def gen_fault(rng, an):
    n = max(c08_frames.expected_frames(an["kw"]))
    k = rng.randrange(12)
    frame = rng.choice([0, 0, n - 1, rng.randrange(0, n), rng.randrange(0, n)])
    if k == 0:
        return {"kind": "spawn", "error": rng.choice(sorted(stage.SPAWN_ERRORS))}
    if k <= 2:
        return {"kind": rng.choice(["dies", "disk full", "killed", "rejects", "quits"]), "frame": frame, "part": rng.random(), "late": rng.random() < 0.4}
    if k == 3:
        return {"kind": "fails at end", "rc": rng.choice([1, 187, 255, -9, -11])}
    if k == 4:
        return {"kind": rng.choice(["interrupt_draw", "interrupt_write", "interrupt_after"]), "frame": frame, "exc": rng.choice(HARD)}
    if k <= 6:
        if not an["fns"]:
            an["fns"][rng.choice(["azimuthal_pan", "elevation_pan", "roll", "axis_limit"])] = ["lin", 10.0, 5.0]
        return {"kind": "callback", "name": rng.choice(sorted(an["fns"])), "frame": frame, "exc": rng.choice(sorted(EXC)), "value": rng.choice([None, None, "none", "str"])}
    if k <= 9:
        return {"kind": "line", "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "Cancelled"]), "pick": [rng.choice(["event", "line", "shallow"]), rng.random(), rng.random()]}
    if k == 10:
        return rng.choice([{"kind": "output"}, {"kind": "stderr", "after": rng.choice([0, 1, 2, 5])}])
    return {"kind": "request", "what": rng.choice(["color", "background", "span", "speed", "tail", "phases", "filename", "density"])}


def gen(rng, i, tier):
    d = ops.gen_obj(rng, rng.choice([("stable",), ("stable",), ("plunge",), ("orbit", "from_constants")]))
    anims = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        an = c08_frames.gen_anim(rng, tier, short=True)
        an["fault"] = gen_fault(rng, an) if rng.random() < 0.93 else None
        anims.append(an)
    plan = {"orbit": d, "anims": anims, "noise": [], "repeat": rng.random() < 0.5, "earlier": rng.choice([0, 1, 2] * 7 + [6, 11, 22]), "touch": rng.random() < 0.7, "settings": stage.gen_settings(rng)}
    if rng.random() < 0.5:
        for _ in range(rng.randrange(1, 4)):
            e = {"frame": rng.randrange(0, 5), "what": rng.choice(["bystander", "bystander", "plot", "failing animate", "animate", "ask"]), "seed": rng.randrange(1 << 30)}
            plan["noise"].append(e)
    return plan


def lists(plan):
    return [("noise",), ("anims",)]


def simplify(plan):
    yield from c08_frames.simplify(dict(plan, real_draw=False))
    if plan["repeat"]:
        yield dict(plan, repeat=False)
    if plan.get("settings"):
        yield dict(plan, settings={})
    if plan["earlier"]:
        yield dict(plan, earlier=0)


class BrokenStream:
    """Standard error on a full device."""

    encoding = "utf-8"

    def __init__(self, stage_, after):
        self.stage, self.left = stage_, after

    def write(self, s):
        if self.left <= 0 and not self.stage.finishing:
            self.stage.fired = self.stage.fired or "progress bar"
            raise OSError(28, "No space left on device")
        self.left -= 1
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def spoil(an, fault):
    """A request that cannot be carried out."""
    an = dict(an, kw=dict(an["kw"]))
    w = fault["what"]
    if w == "color":
        an["kw"]["color"] = "no such colour"
    elif w == "background":
        an["kw"]["background_color"] = "no such colour"
    elif w == "span":
        an["kw"]["lambda1"] = an["kw"]["lambda0"] - 1
    elif w == "speed":
        an["kw"]["speed"] = 0
    elif w == "tail":
        an["kw"]["tail_length"] = None
    elif w == "phases":
        an["kw"]["initial_phases"] = (1, 2)
    elif w == "density":
        an["kw"]["lambda1"] = None
    return an


def stage_fault(f):
    if f is None or f["kind"] in ("line", "output", "stderr", "request"):
        return None
    f = dict(f)
    if "exc" in f:
        f["exc"] = EXC[f["exc"]]
    return f


def rehearse(plan, an, pick):
    """The library event to interrupt at, from a rehearsal in a twin universe; None if there is none."""
    twin = ops.World({"o": plan["orbit"]})
    trail = []
    with twin.uni, stage.Stage(settings=plan.get("settings")) as st, quiet():
        o = twin.obj("o")

        def note(frame):
            if st.finishing:
                return
            depth, f = 0, frame.f_back
            while f is not None and f.f_code.co_filename.startswith(sched.PREFIX):
                depth += 1
                f = f.f_back
            trail.append((depth, frame.f_code.co_name, frame.f_lineno))

        t = sched.Tracer(on_event=note, cap=40)
        scratch = tempfile.mkdtemp(dir=env.SCRATCH or "/tmp")
        try:
            t.run(lambda: c08_frames.animate(st, o, an, scratch))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    if not trail:
        return None
    how, u, v = pick
    if how == "event":
        return 1 + int(u * len(trail))
    if how == "shallow":
        cand = [i for i, x in enumerate(trail) if x[0] <= 2 and x[1].split("_")[0] not in ("r", "theta", "phi", "t")]
        return 1 + cand[int(u * len(cand))]
    keys = sorted(set(trail))
    k = keys[int(u * len(keys))]
    cand = [i for i, x in enumerate(trail) if x == k]
    return 1 + cand[int(v * len(cand))]


@contextlib.contextmanager
def quiet():
    old = sys.stderr
    sys.stderr = open(os.devnull, "w")
    try:
        yield
    finally:
        sys.stderr.close()
        sys.stderr = old


def chain(e):
    out = []
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or x in out:
            continue
        out.append(x)
        todo += [x.__cause__, x.__context__]
    return out


def attempt(res, st, o, an, fault, events, scratch, user, plan, where):
    """One animation with its fault; judges outcome and what is left.  Returns (raised, fired)."""

    def on_frame(k):
        for e in events:
            if e["frame"] == k:
                c08_frames.act(res, st, e, user, o, scratch, None)

    st.reset(fault=stage_fault(fault), on_frame=on_frame)
    st.touch = plan["touch"]
    asked = an
    kind = fault["kind"] if fault else None
    tracer = None
    old_err = sys.stderr
    if kind == "output":
        asked = dict(an, name="missing directory/" + an["name"])
        st.touch = True
    elif kind == "stderr":
        sys.stderr = BrokenStream(st, fault["after"])
    elif kind == "request":
        asked = spoil(an, fault)
        if fault["what"] == "filename":
            asked = dict(an, name="no/such/place.mp4")
            st.touch = True
    elif kind == "line":
        at = rehearse(plan, an, fault["pick"])
        if at is None:
            return None, None
        state = {"figs": plt.get_fignums(), "since": None}

        def note(frame):
            if st.finishing:
                tracer.at = None
                return
            figs = plt.get_fignums()
            if figs != state["figs"]:
                state["figs"], state["since"] = figs, tracer.n
            # a figure that has just been created may not be anybody's yet
            if state["since"] is not None and tracer.n - state["since"] < 3 and tracer.at == tracer.n:
                tracer.at += 1

        tracer = sched.Tracer(at, EXC[fault["exc"]], on_event=note, cap=40)
    stage.forget_bars()
    snap0 = ambient.snapshot(figures=False)
    figs0 = plt.get_fignums()
    current0 = snapshot_current()
    raised = None
    try:
        if tracer is not None:
            tracer.run(lambda: c08_frames.animate(st, o, asked, scratch))
        else:
            c08_frames.animate(st, o, asked, scratch)
    except BaseException as e:
        raised = e
    fired = st.fired
    injected = st.injected
    if tracer is not None and tracer.fired:
        fired = tracer.fired
    figs1 = plt.get_fignums()
    snap1 = ambient.snapshot(figures=False)
    sys.stderr = old_err
    what = "%s, %s%s" % (where, ("fault %s" % {k: v for k, v in fault.items() if k != "pick"}) if fault else "no fault", " at %s" % fired if fired else "")
    res.steps += st.shot
    res.sim_time += len(st.shots) * an["kw"]["speed"] / 30
    res.counts["animations"] += 1

    def bad(klass, msg):
        res.bad(klass, "%s: %s" % (what, msg))

    # ---- the outcome
    n = c08_frames.expected_frames(an["kw"])
    if raised is None:
        done = st.procs[-1] if st.procs else None
        if fired and kind not in ("stderr",):
            # a failing allocation or interrupt after which every frame was still delivered is still lost
            bad("swallowed", "the failure was not reported, the call returned normally")
        elif min(n) > 0 and kind == "request" and fault["what"] in ("color", "background", "phases", "tail", "density", "speed"):
            bad("swallowed", "an impossible request was not reported")
        elif kind != "request" and done is None:
            bad("returned early", "the call returned normally without starting an encoder")
        elif kind != "request" and (len(st.shots) not in n or done.frames() != len(st.shots)):
            bad("returned early", "the call returned normally after %.2f of %s frames" % (done.frames(), sorted(n)))
        elif done is not None and done.returncode != 0:
            bad("returned early", "the call returned normally although the encoder ended with %s" % done.returncode)
    else:
        res.counts["failures reported"] += 1
        if kind == "output" and not fired:
            fired = "set-up"
        if not fired and kind != "request":
            if kind == "callback" and fault.get("value"):
                pass
            else:
                bad("raises", "nothing failed but the call raised %r" % raised)
        else:
            if injected is None and tracer is not None and tracer.fired:
                ok = any(type(x) is EXC[fault["exc"]] and x.args == ("injected",) for x in chain(raised))
            elif injected is not None:
                ok = any(x is injected for x in chain(raised)) or (isinstance(injected, StopIteration) and "StopIteration" in repr(raised))
            else:
                ok = True
            if not ok:
                bad("other failure", "%r was raised instead, without mention of the original failure" % raised)
            hard = EXC.get((fault or {}).get("exc"), None)
            if ok and hard is not None and not issubclass(hard, Exception) and not isinstance(raised, hard):
                bad("other failure", "%s arrived at the caller as %r" % (fault["exc"], raised))
    # ---- what is left
    if figs1 != mine(figs0, user):
        bad("figure left", "open figures %s -> %s" % (mine(figs0, user), figs1))
    for p in st.procs:
        if not p.waited:
            bad("encoder left", "an encoder process was started and never waited for")
        elif not p.stdin.closed:
            bad("encoder left", "the pipe to an encoder is still open")
    if st.deadlocked:
        bad("encoder left", "the encoder was waited for while its input was still open: that never ends")
    d = ambient.changed(snap0, snap1, skip=("progress bars",) if kind == "stderr" else ())
    if d:
        bad("settings", d[1])
    msg = user.disturbed()
    if msg:
        bad("other figures", msg)
    if current0 is not None and not events and snapshot_current() != current0:
        bad("other figures", "the current figure changed from %s to %s" % (current0, snapshot_current()))
    left = sorted(os.listdir(scratch))
    if [f for f in left if f not in {a["name"] for a in plan["anims"]} and not f.startswith("other ")]:
        bad("files left", "files %s were left" % left)
    what_kind = kind if kind != "spawn" else "encoder: " + fault["error"]
    if fired:
        res.faults[(what_kind + (" " + fault["exc"] if "exc" in fault else ""))] += 1
    elif kind == "request" and raised is not None:
        res.faults["impossible request: " + fault["what"]] += 1
        fired = "request"
    res.state(what_kind, (fault or {}).get("exc"), (fault or {}).get("what"), fired if kind == "line" else min(st.shot, 9), sorted(an["fns"]), bool(an["kw"].get("plot_components")), sorted({e["what"] for e in events}))
    return raised, fired


def snapshot_current():
    m = plt._pylab_helpers.Gcf.get_active()
    return m.num if m is not None else None


def mine(before, user):
    """Numbers of the figures that should be open: those of other users only."""
    return sorted(f.number for f in user.open_figures())


def run(plan):
    res = Result()
    w, rw = ops.World({"o": plan["orbit"]}), ops.World({"o": plan["orbit"]})
    scratch = tempfile.mkdtemp(dir=env.SCRATCH or "/tmp")
    with rw.uni:
        o_ref = rw.obj("o")
    a = abs(plan["orbit"]["args"][0])
    user = User(random.Random(11))
    try:
        with w.uni, stage.Stage(settings=plan.get("settings")) as st, quiet():
            for _ in range(plan["earlier"]):
                user.open()
            o = w.obj("o")
            any_fired = False
            for k, an in enumerate(plan["anims"]):
                events = plan["noise"] if k == 0 else []
                raised, fired = attempt(res, st, o, an, an.get("fault"), events, scratch, user, plan, "animation %d" % k)
                any_fired = any_fired or bool(fired)
                if res.violations:
                    break
            if plan["repeat"] and plan["anims"] and not res.violations:
                an = dict(plan["anims"][-1])
                attempt(res, st, o, an, None, [], scratch, user, plan, "animation repeated")
                if not res.violations:
                    c08_frames.judge(res, an, st.shots, st.procs, o_ref, rw.uni, a, "repeated after a failure")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res.nontrivial = any_fired
    res.sample = {"orbit": plan["orbit"], "animation": plan["anims"][0] if plan["anims"] else None}
    return res


class User(stage.Bystander):
    """A bystander that knows which of its figures are open."""

    def __init__(self, rng):
        super().__init__(rng)
        self.closed = []  # figures (numbers are given out again)

    def act(self):
        was = [f[0] for f in self.figs if f[0] not in self.closed]
        r = super().act()
        self.closed += [f for f in was if stage.is_shut(f)]
        return r

    def open_figures(self):
        return [f[0] for f in self.figs if f[0] not in self.closed]
