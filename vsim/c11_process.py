"""C11: process-wide state is left as it was found."""
from . import ambient, c03_interrupt, c08_frames, c09_animfail, c10_plots, env, ops, sched, stage
from .runner import Result
import contextlib
import decimal
import gc
import io
import json
import locale
import logging
import os
import random
import shutil
import signal
import socket
import sys
import tempfile
import threading
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import scipy.special

RUNS = {"quick": 2600, "thorough": 50000}
BUDGET = {"quick": 170, "thorough": 1700}
RULE = (
    "each run imports the library afresh and makes a seeded history of requests - computations, "
    "refused requests, plots, animations - some cut short at a seeded library line or failing by a "
    "seeded fault, under seeded ambient settings that callers change before, between and (at seeded "
    "library lines) during requests; after the import and after every request the process-wide state "
    "is compared with what it was, the output streams and the audited file / process / network events "
    "are inspected, and answers are compared with the clean room's.  Non-trivial: at least one setting "
    "was changed or one request cut short."
)
TIME_UNIT = "library events executed and frames drawn"
STATE_MEASURE = "distinct (request kind, how it ended, settings in force)"
REAL = ["every kerrgeopy module (executed from /repo)", "numpy", "scipy", "matplotlib", "tqdm"]
STUBS = ["encoder process", "Agg rendering of frames", "standard streams", "delivery of interrupts", "callers that change settings"]
ASSUMPTIONS = [
    "caches that Python, numpy, scipy and matplotlib keep for themselves are not process-wide settings; tqdm's own monitor thread is switched off",
    "under settings that turn floating-point warnings into errors, a request whose answer contains nan or inf may raise that error instead",
    "settings that are per thread in numpy (error handling, print options), and warning filters, are changed between requests only; so are plotting settings around animations, which matplotlib itself restores",
]

# ---------------------------------------------------------------- audited events

_audit = {"on": False, "log": [], "allow": ()}
_EVENTS = {
    "os.chdir", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.putenv", "os.unsetenv", "os.system", "os.fork", "os.forkpty", "os.exec", "os.posix_spawn", "os.spawn",
    "os.kill", "os.killpg", "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate", "os.utime", "os.startfile", "subprocess.Popen", "socket.connect", "socket.bind",
    "socket.__new__", "socket.getaddrinfo", "shutil.rmtree", "shutil.move", "shutil.copyfile", "signal.pthread_kill", "tempfile.mkstemp", "tempfile.mkdtemp", "builtins.input",
    "urllib.Request", "webbrowser.open", "sqlite3.connect", "ftplib.connect", "resource.setrlimit", "pty.spawn",
}


def _hook(event, args):
    if not _audit["on"]:
        return
    if event == "open":
        path, mode, flags = args
        w = (isinstance(mode, str) and set(mode) & set("wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        if w and str(path) not in _audit["allow"]:
            _audit["log"].append("opens %r for writing" % (path,))
    elif event in _EVENTS:
        _audit["log"].append("%s %s" % (event, str(args)[:80]))


_installed = []


@contextlib.contextmanager
def audited(allow=()):
    if not _installed:
        _installed.append(1)
        sys.addaudithook(_hook)
    _audit.update(on=True, log=[], allow=tuple(allow))
    try:
        yield _audit["log"]
    finally:
        _audit["on"] = False


# ---------------------------------------------------------------- settings of callers


class Log:
    def __init__(self):
        self.lines = []

    def write(self, s):
        self.lines.append(s)

    def __call__(self, *a):
        self.lines.append(a)


class Broken(io.TextIOBase):
    def write(self, s):
        raise OSError(28, "No space left on device")


def handler(sig, frame):
    pass


def excepthook(*a):
    pass


def shown(*a, **k):
    pass


def no_showwarning(*a, **k):
    pass


SETTINGS = ["seterr"] * 3 + "special print rc rc style filters showwarning environ cwd umask recursion gc decimal signal switch logging socket hooks rng rng interactive stdout tempdir locale bufsize".split()
MID = ["environ", "cwd", "umask", "rng", "rng", "gc", "signal", "recursion", "logging", "rc", "socket", "decimal", "stdout", "hooks", "interactive"]


def change(what, seed, scratch, room):
    """One setting changed by a caller; returns how it is described."""
    rng = random.Random(seed)
    if what == "seterr":
        how = rng.choice(["ignore", "warn", "call", "log", "raise", "raise", "mixed"])
        if how in ("call", "log"):
            np.seterrcall(room.log)
        if how == "mixed":
            np.seterr(divide="ignore", over="warn", under="ignore", invalid="warn")
        else:
            np.seterr(all=how)
        return "seterr " + how
    if what == "special":
        # 'raise' would change scipy's own answers
        scipy.special.seterr(**{k: rng.choice(["ignore", "warn"]) for k in ("loss", "slow", "domain", "singular")})
    elif what == "print":
        np.set_printoptions(precision=rng.choice([1, 3, 17]), threshold=rng.choice([2, 1000]), suppress=rng.random() < 0.5)
    elif what == "rc":
        for k, v in rng.sample([("lines.linewidth", 7.0), ("figure.figsize", [3.0, 2.0]), ("axes.grid", True), ("savefig.dpi", 20.0), ("figure.facecolor", "yellow"), ("animation.bitrate", 500), ("font.size", 4.0), ("savefig.bbox", "tight"), ("axes.labelsize", 20.0), ("image.cmap", "gray"), ("animation.ffmpeg_path", "/simulated/other")], 3):
            matplotlib.rcParams[k] = v
    elif what == "style":
        plt.style.use(rng.choice(["default", "dark_background", "ggplot"]))
        matplotlib.rcParams["figure.dpi"] = 10
        matplotlib.rcParams["backend"] = "agg"
    elif what == "filters":
        how = rng.choice(["ignore", "error", "always", "once", "default"])
        warnings.simplefilter(how)
        return "warnings " + how
    elif what == "showwarning":
        warnings.showwarning = no_showwarning
    elif what == "environ":
        os.environ["VSIM_%d" % rng.randrange(5)] = str(rng.random())
        os.environ[rng.choice(["OMP_NUM_THREADS", "PYTHONWARNINGS", "MPLBACKEND", "TQDM_DISABLE_X", "LANG"])] = rng.choice(["1", "2", "ignore", "C"])
    elif what == "cwd":
        d = os.path.join(scratch, "cwd%d" % rng.randrange(3))
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
    elif what == "umask":
        os.umask(rng.choice([0o022, 0o077, 0o027]))
    elif what == "recursion":
        sys.setrecursionlimit(rng.choice([900, 1500, 5000]))
    elif what == "gc":
        rng.choice([gc.disable, gc.enable, lambda: gc.set_threshold(100, 5, 5), gc.collect])()
    elif what == "decimal":
        decimal.getcontext().prec = rng.choice([3, 28, 50])
    elif what == "signal":
        for s in rng.sample([signal.SIGINT, signal.SIGUSR1, signal.SIGALRM, signal.SIGTERM, signal.SIGPIPE, signal.SIGCHLD, signal.SIGFPE], 2):
            signal.signal(s, rng.choice([handler, signal.SIG_IGN, signal.SIG_DFL]) if s is not signal.SIGFPE else handler)
    elif what == "switch":
        sys.setswitchinterval(rng.choice([0.001, 0.01]))
    elif what == "logging":
        logging.getLogger().setLevel(rng.choice([10, 30, 50]))
        if rng.random() < 0.5:
            logging.disable(rng.choice([0, 50]))
        if not logging.getLogger().handlers:
            h = logging.StreamHandler(room.logged)
            # diagnostics under the library's own name, which the caller has asked for, are no output
            h.addFilter(lambda rec: rec.levelno >= logging.WARNING or rec.name.split(".")[0] != "kerrgeopy")
            # matplotlib reports what the encoder said through its own logger
            h.addFilter(lambda r: not r.name.startswith(("matplotlib", "PIL")))
            logging.getLogger().addHandler(h)
    elif what == "socket":
        socket.setdefaulttimeout(rng.choice([None, 3.5]))
    elif what == "hooks":
        sys.excepthook = excepthook
        threading.excepthook = excepthook
    elif what == "rng":
        k = rng.randrange(4)
        if k == 0:
            np.random.seed(rng.randrange(1 << 31))
        elif k == 1:
            random.seed(rng.randrange(1 << 31))
        elif k == 2:
            np.random.random(rng.randrange(1, 9))
        else:
            random.random()
    elif what == "interactive":
        (plt.ion if rng.random() < 0.5 else plt.ioff)()
    elif what == "stdout":
        sys.stdout = rng.choice([None, Broken(), room.out])
    elif what == "tempdir":
        tempfile.tempdir = rng.choice([None, scratch])
    elif what == "locale":
        with contextlib.suppress(locale.Error):
            locale.setlocale(locale.LC_ALL, rng.choice(["C", "C.UTF-8", "POSIX"]))
    elif what == "bufsize":
        np.setbufsize(rng.choice([8192, 4096, 16384]))
    return what


class Saved:
    """Puts every setting a run may change back at its end."""

    def __enter__(self):
        self.v = dict(
            special=scipy.special.geterr(), show=(warnings.showwarning, warnings.formatwarning), umask=ambient._umask(), rec=sys.getrecursionlimit(), gc=(gc.isenabled(), gc.get_threshold()),
            prec=decimal.getcontext().prec, sig={s: signal.getsignal(s) for s in ambient._SIGS}, sw=sys.getswitchinterval(), log=(logging.getLogger().level, list(logging.getLogger().handlers), logging.root.manager.disable),
            sock=socket.getdefaulttimeout(), hooks=(sys.excepthook, threading.excepthook, sys.unraisablehook, sys.displayhook), inter=plt.isinteractive(), std=(sys.stdin, sys.stdout, sys.stderr), tmp=tempfile.tempdir,
            loc=locale.setlocale(locale.LC_ALL), buf=np.getbufsize(), path=list(sys.path), limits={r: ambient.resource.getrlimit(r) for r in (ambient.resource.RLIMIT_AS, ambient.resource.RLIMIT_NOFILE, ambient.resource.RLIMIT_CPU, ambient.resource.RLIMIT_STACK)},
        )
        return self

    def __exit__(self, *e):
        v = self.v
        scipy.special.seterr(**v["special"])
        warnings.showwarning, warnings.formatwarning = v["show"]
        os.umask(v["umask"])
        sys.setrecursionlimit(v["rec"])
        (gc.enable if v["gc"][0] else gc.disable)()
        gc.set_threshold(*v["gc"][1])
        decimal.getcontext().prec = v["prec"]
        for s, h in v["sig"].items():
            if signal.getsignal(s) is not h and h is not None:
                signal.signal(s, h)
        sys.setswitchinterval(v["sw"])
        root = logging.getLogger()
        root.setLevel(v["log"][0])
        root.handlers[:] = v["log"][1]
        logging.disable(v["log"][2])
        socket.setdefaulttimeout(v["sock"])
        sys.excepthook, threading.excepthook, sys.unraisablehook, sys.displayhook = v["hooks"]
        (plt.ion if v["inter"] else plt.ioff)()
        sys.stdin, sys.stdout, sys.stderr = v["std"]
        tempfile.tempdir = v["tmp"]
        locale.setlocale(locale.LC_ALL, v["loc"])
        np.setbufsize(v["buf"])
        sys.path[:] = v["path"]
        for r, lim in v["limits"].items():
            with contextlib.suppress(ValueError, OSError):
                ambient.resource.setrlimit(r, lim)


# ---------------------------------------------------------------- runs


def gen_contrast(rng):
    """Nearly identical requests under settings that a careless comparison would depend on."""
    defs, qs = ops.contrast(rng)
    qs = qs[:6]
    rng.shuffle(qs)
    steps = [{"t": "set", "what": rng.choice(["print", "print", "print", "decimal", "locale", "seterr", rng.choice(SETTINGS)]), "seed": rng.randrange(1 << 30)} for _ in range(rng.choice([1, 2, 3]))]
    steps += [{"t": "ask", "q": q} for q in qs]
    if rng.random() < 0.3:
        steps[-1]["mid"] = [{"at": rng.randrange(1, 300), "what": rng.choice(MID), "seed": rng.randrange(1 << 30)}]
    return {"defs": defs, "steps": steps, "prebuild": rng.random() < 0.4}


def gen(rng, i, tier):
    if rng.random() < 0.25:
        return gen_contrast(rng)
    kinds = rng.choice([("stable",), ("plunge",), ("stable", "plunge", "orbit", "from_constants"), ("orbit", "stable")])
    defs, objs, hs = ops.gen_defs(rng, rng.randrange(1, 3), rng.randrange(1, 4), kinds)
    steps = []
    for _ in range(rng.randrange(2, 7)):
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
            steps.append({"t": "set", "what": rng.choice(SETTINGS), "seed": rng.randrange(1 << 30)})
        k = rng.random()
        s = None
        if rng.random() < 0.03:
            s = {"t": "ask", "q": {"r": "sep", "a": rng.choice([0.3, 0.9]), "g": rng.choice([0.25, 0.2]), "e": ops.r6(rng.random()), "x": ops.r6(rng.uniform(-1, 1))}}
            if rng.random() < 0.3:
                s["cut"] = {"exc": rng.choice(["KeyboardInterrupt", "MemoryError", "Cancelled"]), "pick": [rng.choice(["event", "line", "shallow", "late"]), rng.random(), rng.random()], "opcodes": False, "deep": False}
        elif k < 0.5:
            q = None
            while q is None:
                q = ops.gen_req(rng, defs, objs, hs, slow=rng.random() < 0.1)
            s = {"t": "ask", "q": q}
        elif k < 0.6:
            s = {"t": "ask", "q": ops.gen_bad(rng)}
        elif k < 0.78:
            q = None
            while q is None:
                q = ops.gen_req(rng, defs, objs, hs, slow=False)
            s = {"t": "ask", "q": q, "cut": {"exc": rng.choice(["KeyboardInterrupt", "MemoryError", "Cancelled"]), "pick": [rng.choice(["event", "line", "shallow", "late"]), rng.random(), rng.random()], "opcodes": False, "deep": rng.random() < 0.1}}
        elif k < 0.9:
            s = {"t": "plot", "o": "o0", "kw": c10_plots.gen_plot(rng)}
            s["kw"]["lambda1"] = s["kw"].get("lambda0", 0) + min(2.5, s["kw"].get("lambda1", 1) - s["kw"].get("lambda0", 0))
            if rng.random() < 0.25:
                s["cut_at"] = [rng.choice(["KeyboardInterrupt", "MemoryError"]), rng.randrange(1, 400)]
        else:
            an = c08_frames.gen_anim(rng, tier, short=True)
            an["fault"] = None
            if rng.random() < 0.5:
                an["fault"] = c09_animfail.gen_fault(rng, an)
                if an["fault"]["kind"] in ("line", "stderr", "output", "request"):
                    an["fault"] = None
            s = {"t": "animate", "o": "o0", "an": an}
        if s["t"] == "ask" and "cut" not in s and rng.random() < 0.35:
            s["mid"] = [{"at": rng.randrange(1, 300), "what": rng.choice(MID), "seed": rng.randrange(1 << 30)} for _ in range(rng.randrange(1, 4))]
        steps.append(s)
    return {"defs": defs, "steps": steps, "prebuild": rng.random() < 0.4}


def lists(plan):
    return [("steps",)] + [("steps", i, "mid") for i, s in enumerate(plan["steps"]) if "mid" in s]


def simplify(plan):
    used = ops.needed(plan["defs"], [s.get("q", {}).get(k) for s in plan["steps"] for k in ("o", "h")] + ["o0"] * ("o0" in plan["defs"]))
    if any(n not in used for n in plan["defs"]):
        yield dict(plan, defs={n: d for n, d in plan["defs"].items() if n in used})
    if plan["prebuild"]:
        yield dict(plan, prebuild=False)
    for i, s in enumerate(plan["steps"]):
        for k in ("cut", "mid", "cut_at"):
            if k in s:
                yield dict(plan, steps=plan["steps"][:i] + [{j: v for j, v in s.items() if j != k}] + plan["steps"][i + 1 :])


class Room:
    def __init__(self):
        self.log, self.out, self.err, self.logged = Log(), io.StringIO(), io.StringIO(), io.StringIO()


def finite(v):
    if isinstance(v, (tuple, list)):
        return all(finite(x) for x in v)
    if isinstance(v, dict):
        return all(finite(x) for x in v.values())
    try:
        return bool(np.all(np.isfinite(np.asarray(v, dtype=complex))))
    except (TypeError, ValueError):
        return True


def run(plan):
    res = Result()
    scratch = tempfile.mkdtemp(dir=env.SCRATCH or "/tmp")
    stage.warm_up()
    fd1 = os.dup(1)
    spool = os.open(os.path.join(scratch, "stdout"), os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(spool, 1)
    cwd = os.getcwd()
    try:
        with Saved(), stage.Stage() as st, warnings.catch_warnings():
            room = Room()
            sys.stdout, sys.stderr = room.out, room.err
            warnings.simplefilter("ignore")
            warnings.showwarning = shown  # the caller's own way of showing warnings
            history(plan, res, st, room, scratch)
            sys.__stdout__ and sys.__stdout__.flush()
            n = os.fstat(spool).st_size
            if n and not res.violations:
                os.lseek(spool, 0, 0)
                res.bad("output", "written to standard output: %r" % os.read(spool, 200))
    finally:
        os.dup2(fd1, 1)
        os.close(fd1)
        os.close(spool)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
        np.seterrcall(None)
    return res


class Fail(Exception):
    pass


def history(plan, res, st, room, scratch):
    defs = plan["defs"]
    force = {}
    events = [0]

    def compare(snap, what, skip=(), figures=None):
        now = ambient.snapshot()
        if figures is not None:
            snap = dict(snap, figures=figures, **{"current figure": now["current figure"]})
        d = ambient.changed(snap, now, skip)
        res.counts["states compared"] += 1
        if d:
            res.bad("state:" + d[0], "%s: %s" % (what, d[1]))
        if room.out.getvalue():
            res.bad("output", "%s: printed %r" % (what, room.out.getvalue()[:200]))
        if room.err.getvalue():
            res.bad("output", "%s: printed on standard error %r" % (what, room.err.getvalue()[:200]))
        if room.logged.getvalue():
            res.bad("output", "%s: logged %r" % (what, room.logged.getvalue()[:200]))

    def quiet_audit(log, what):
        if log:
            res.bad("side effect", "%s: %s" % (what, log[0]))

    # ---- importing the library is the first thing a process does with it
    snap = ambient.snapshot()
    with audited() as log:
        w = ops.World(defs)
    compare(snap, "importing the library")
    quiet_audit(log, "importing the library")
    if plan["prebuild"]:
        c03_interrupt.prebuild(w, [n for n in defs])
    changes = cuts = 0
    for s in plan["steps"]:
        if res.violations:
            return
        if s["t"] == "set":
            force[s["what"]] = change(s["what"], s["seed"], scratch, room)
            res.faults["setting changed: " + s["what"]] += 1
            changes += 1
            continue
        names = sorted(set(force.values()))
        if s["t"] == "ask":
            q = s["q"]
            what = "%s under %s" % (ops._short(json.dumps(q)), names)
            want = ops.clean_room(defs, q)
            cut = s.get("cut")
            t = None
            if cut:
                at = c03_interrupt.choose_event(defs, list(w.objs), q, cut)
                exc = sched.INTERRUPTS[cut["exc"]]
                if at is not None:
                    t = sched.Tracer(at, exc, extra=c03_interrupt.DEEP if cut["deep"] else (), limit=5_000_000)
            elif s.get("mid"):
                mid = {}
                for m in s["mid"]:
                    mid.setdefault(m["at"], []).append(m)
                state = {}

                def note(frame):
                    for m in mid.pop(t.n, ()):
                        _audit["on"] = False
                        tr = sys.gettrace()
                        sys.settrace(None)
                        force[m["what"]] = change(m["what"], m["seed"], scratch, room)
                        res.faults["setting changed during a request: " + m["what"]] += 1
                        state.update(ambient.snapshot())
                        sys.settrace(tr)
                        _audit["on"] = True

                t = sched.Tracer(on_event=note)
            snap = ambient.snapshot()
            if s.get("mid"):
                state.update(snap)
                snap = state
            with w.uni, audited() as log:
                try:
                    got = ops.outcome((lambda: t.run(lambda: w.answer(q))) if t else (lambda: w.answer(q)))
                except BaseException as e:
                    if t is None or not t.fired:
                        raise
                    got = ("interrupted", type(e).__name__)
            if t is not None:
                events[0] += t.n
                if t.fired:
                    cuts += 1
                    res.faults[cut["exc"]] += 1
                    what = "%s interrupted at %s" % (what, t.fired)
            compare(snap, what)
            quiet_audit(log, what)
            strict = force.get("seterr") == "seterr raise" or force.get("filters") == "warnings error"
            if not (t is not None and t.fired) and not res.violations:
                d = ops.differ(got, want)
                res.counts["answers compared"] += 1
                if d and strict and got[0] == "err" and got[1] in ("FloatingPointError", "RuntimeWarning") and (want[0] == "err" or not finite(want[1])):
                    res.counts["floating-point error raised as the caller wished"] += 1
                elif d:
                    res.bad("result", "%s: %s" % (what, d))
            res.state(q["r"], q.get("m"), got[0], names)
        elif s["t"] == "plot":
            plotted(res, w, st, s, compare, quiet_audit, names, scratch)
        else:
            animated(res, w, st, s, compare, quiet_audit, names, scratch, room)
    res.steps = events[0] + st.shot
    res.sim_time = res.steps
    res.nontrivial = changes + cuts > 0
    res.sample = {"steps": plan["steps"][:4]}


def plotted(res, w, st, s, compare, quiet_audit, names, scratch):
    what = "a plot with %s under %s" % (s["kw"], names)
    with w.uni:
        if ops.outcome(lambda: w.obj(s["o"]))[0] == "err":
            return
        o = w.obj(s["o"])
        snap = ambient.snapshot()
        figs = list(plt.get_fignums())
        t = sched.Tracer(s["cut_at"][1], sched.INTERRUPTS[s["cut_at"][0]], cap=30) if s.get("cut_at") else None
        ended = "done"
        with audited() as log:
            try:
                fig, ax = t.run(lambda: o.plot(**ops.dec_kw(s["kw"]))) if t else o.plot(**ops.dec_kw(s["kw"]))
                figs.append(fig.number)
            except BaseException as e:
                ended = type(e).__name__
                if isinstance(e, (RuntimeWarning, FloatingPointError)):
                    pass  # as the caller wished (drawing beyond the orbit's end, for instance)
                elif t is None or not t.fired:
                    raise
                # a half made figure belongs to nobody
                for n in plt.get_fignums():
                    if n not in figs:
                        plt.close(n)
        if t is not None and t.fired:
            res.faults[s["cut_at"][0] + " (plot)"] += 1
    compare(snap, what, figures=tuple(sorted(figs)))
    quiet_audit(log, what)
    res.state("plot", ended, names)
    if len(figs) > 3:
        plt.close("all")


def animated(res, w, st, s, compare, quiet_audit, names, scratch, room):
    an, f = s["an"], s["an"]["fault"]
    what = "an animation with %s, fault %s under %s" % (an["kw"], f, names)
    with w.uni:
        if ops.outcome(lambda: w.obj(s["o"]))[0] == "err":
            return
        o = w.obj(s["o"])
        st.reset(fault=c09_animfail.stage_fault(f))
        before = sorted(os.listdir(scratch))
        snap = ambient.snapshot()
        ended = "done"
        with audited([os.path.join(scratch, an["name"])]) as log:
            try:
                c08_frames.animate(st, o, an, scratch)
            except BaseException as e:
                ended = type(e).__name__
                if not st.fired and not isinstance(e, (RuntimeWarning, FloatingPointError, UserWarning)):
                    if f and f["kind"] == "callback":
                        pass
                    else:
                        raise
    if f and st.fired:
        res.faults[f["kind"]] += 1
    bar = room.err.getvalue().replace("MovieWriter stderr:", "").replace("encoder: error", "")
    room.err.seek(0)
    room.err.truncate()
    left = bar.replace("\r", "").strip()
    if left and not all("%|" in line or "it/s" in line or "it [" in line or not line.strip() for line in bar.replace("\r", "\n").split("\n")):
        res.bad("output", "%s: printed on standard error %r" % (what, bar[:300]))
    compare(snap, what)
    quiet_audit(log, what)
    if sorted(os.listdir(scratch)) != before:
        res.bad("side effect", "%s: files %s appeared" % (what, sorted(set(os.listdir(scratch)) - set(before))))
    res.state("animate", ended, f and f["kind"], names)
