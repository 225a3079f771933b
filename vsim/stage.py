"""The simulated stage for plots and animations: encoder process, canvas, other pyplot users.

Encoder: `subprocess.Popen` and `shutil.which` are replaced while a run lasts; the simulated
encoder parses the command line it is given, receives what is written to its stdin and fails on
schedule.  Canvas: `Figure.savefig` is wrapped - at that instant the content of the figure is
recorded, and either the real renderer runs or a stub writes a frame of the right size.
"""
from . import env
import contextlib
import io
import os
import shutil
import subprocess

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import tqdm
import tqdm.std
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure
from mpl_toolkits.mplot3d import art3d

SPAWN_ERRORS = {
    "missing": lambda: FileNotFoundError(2, "No such file or directory", "ffmpeg"),
    "permission": lambda: PermissionError(13, "Permission denied", "ffmpeg"),
    "enomem": lambda: OSError(12, "Cannot allocate memory"),
    "emfile": lambda: OSError(24, "Too many open files"),
    "eagain": lambda: BlockingIOError(11, "Resource temporarily unavailable"),
}


class SimStdin(io.RawIOBase):
    def __init__(self, proc):
        self.proc = proc
        self.n = 0

    def writable(self):
        return True

    def write(self, b):
        if self.closed:
            raise ValueError("write to closed file")
        n = len(memoryview(b).cast("B"))
        self.proc.receive(n)
        self.n += n
        return n

    def close(self):
        super().close()


class SimPopen:
    """One encoder process."""

    def __init__(self, stage, args, **kw):
        self.stage, self.args, self.kw = stage, args, kw
        self.pid = 100000 + len(stage.procs)
        self.returncode = None
        self.waited = False
        self.killed = False
        self.dead = None  # return code once it has ended by itself
        self.nbytes = 0
        self.stdin = SimStdin(self)
        self.stdout, self.stderr = io.BytesIO(), io.BytesIO()
        self.size = None
        args = [str(a) for a in args]
        if "-s" in args:
            w, h = args[args.index("-s") + 1].split("x")
            self.size = (int(w), int(h))
        self.rate = float(args[args.index("-framerate") + 1]) if "-framerate" in args else None
        self.outfile = args[-1]
        self.started_at = len(stage.shots)
        if stage.touch:
            # the encoder opens its output at once, and gives up when it cannot
            try:
                with open(self.outfile, "ab"):
                    pass
            except OSError:
                stage.fired = stage.fired or "output not writable"
                self.dead = 1

    @property
    def frame_bytes(self):
        return self.size[0] * self.size[1] * 4

    def frames(self):
        return self.nbytes / self.frame_bytes

    def receive(self, n):
        f = self.stage.fault
        if f and f["kind"] == "interrupt_write" and self.stage.shot - 1 == f["frame"] and not self.stage.fired:
            self.stage.fire(f["exc"])
        if self.dead is not None or self.returncode is not None:
            raise BrokenPipeError(32, "Broken pipe")
        if f and f["kind"] in ("dies", "disk full", "killed", "rejects", "quits") and not self.stage.fired:
            # the encoder takes part of this frame and ends
            if f["kind"] == "rejects" or self.stage.shot - 1 >= f["frame"]:
                self.stage.fired = f["kind"]
                self.dead = {"dies": 1, "disk full": 1, "killed": -9, "rejects": 234, "quits": 0}[f["kind"]]
                self.nbytes += int(n * f.get("part", 0.3))
                if f.get("late") and f["kind"] != "quits":
                    return  # the pipe buffer swallowed it: only the next write notices
                raise BrokenPipeError(32, "Broken pipe")
        self.nbytes += n

    def _end(self):
        if self.returncode is None:
            f = self.stage.fault
            if self.dead is not None:
                self.returncode = self.dead
            elif self.killed:
                self.returncode = -9
            elif f and f["kind"] == "fails at end" and not self.stage.fired:
                self.stage.fired = f["kind"]
                self.returncode = f.get("rc", 1)
            else:
                self.returncode = 0
        self.waited = True
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.stage.finishing = True
        if not self.stdin.closed:
            self.stdin.close()
        rc = self._end()
        return (b"", b"encoder: error\n" if rc else b"")

    def wait(self, timeout=None):
        self.stage.finishing = True
        if not self.stdin.closed:
            # a real encoder waits for end of input: waiting now would never return
            self.stage.deadlocked = True
            raise subprocess.TimeoutExpired(self.args, timeout or 0)
        return self._end()

    def poll(self):
        if self.returncode is None and (self.dead is not None or self.killed or self.stdin.closed):
            self._end()
        return self.returncode

    def kill(self):
        self.killed = True
        if self.dead is None and self.returncode is None:
            self.dead = -9

    terminate = kill

    def send_signal(self, sig):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.stdin.close()
        self._end()


def forget_bars():
    """A progress bar whose own constructor failed is listed by tqdm until it is collected."""
    with tqdm.tqdm.get_lock():
        getattr(tqdm.tqdm, "_instances", set()).clear()


_warm = []


def warm_up():
    """Let matplotlib and tqdm do their once-per-process initialisation (fonts, locks)."""
    if _warm:
        return
    _warm.append(True)
    import sys
    import warnings

    from matplotlib.animation import FFMpegWriter, FuncAnimation

    tqdm.tqdm.monitor_interval = 0
    figs = plt.get_fignums()
    with warnings.catch_warnings(), Stage(real_draw=True, dpi=5):
        warnings.simplefilter("ignore")
        fig = plt.figure()
        ax = fig.add_subplot(projection="3d")
        ax.text2D(0, 0, r"$a = 1 \quad \lambda$ text")
        ax.set_title("t")
        fig.tight_layout()
        FuncAnimation(fig, lambda i: None, 1).save("warm.mp4", writer=FFMpegWriter(fps=30))
        plt.close(fig)
    with open(os.devnull, "w") as null, tqdm.tqdm(total=1, file=null) as bar:
        bar.update(1)
    assert plt.get_fignums() == figs


def gen_settings(rng):
    """Plotting settings the user of the process made beforehand."""
    out = {}
    if rng.random() < 0.4:
        out["interactive"] = True
    for k, v in (("figure.max_open_warning", 0), ("lines.linewidth", 4.0), ("axes.grid", True), ("animation.bitrate", 500), ("axes.unicode_minus", False), ("animation.embed_limit", 1.0)):
        if rng.random() < 0.06:
            out[k] = v
    return out


class Stage:
    """Everything simulated around one or more plots / animations."""

    def __init__(self, real_draw=False, dpi=10, settings=None):
        self.real_draw, self.dpi = real_draw, dpi
        self.settings = settings or {}
        self.touch = False
        self.now = 1e9  # the progress bar's clock
        self.reset()

    def reset(self, fault=None, on_frame=None):
        self.procs = []
        self.shots = []  # what each saved frame showed
        self.calls = []  # callback calls since the last frame: (name, mino time, value)
        self.shot = 0
        self.fault, self.fired = fault, None
        self.finishing = False
        self.deadlocked = False
        self.on_frame = on_frame
        self.injected = None
        self.stray = 0

    def fire(self, exc):
        self.fired = exc.__name__
        self.injected = exc("injected")
        raise self.injected

    def popen(self, args, *a, **kw):
        f = self.fault
        if f and f["kind"] == "spawn" and not self.fired:
            self.fired = "encoder: " + f["error"]
            self.injected = SPAWN_ERRORS[f["error"]]()
            raise self.injected
        p = SimPopen(self, args, **kw)
        self.procs.append(p)
        return p

    def savefig(self, fig, fname, *a, **kw):
        f = self.fault
        self.now += 0.07
        if not isinstance(fname, SimStdin):
            self.stray += 1
            return self._real_savefig(fig, fname, *a, **kw)
        k = self.shot
        self.shot += 1
        if f and f["kind"] == "interrupt_draw" and k == f["frame"] and not self.fired:
            self.fire(f["exc"])
        snap = snapshot(fig)
        dpi = kw.get("dpi") or fig.dpi
        dpi = fig.dpi if dpi == "figure" else dpi
        w, h = fig.get_size_inches() * dpi
        snap["size"] = (int(w + 1e-8), int(h + 1e-8))
        snap["format"] = kw.get("format")
        snap["savecolor"] = kw.get("facecolor")
        snap["calls"], self.calls = self.calls, []
        before = fname.proc.nbytes
        if self.real_draw:
            self._real_savefig(fig, fname, *a, **kw)
        else:
            fname.write(bytes(snap["size"][0] * snap["size"][1] * 4))
        snap["bytes"] = fname.proc.nbytes - before
        self.shots.append(snap)
        if f and f["kind"] == "interrupt_after" and k == f["frame"] and not self.fired:
            self.fire(f["exc"])
        if self.on_frame is not None:
            self.on_frame(k)

    def callback(self, name, fn):
        """A caller's function of Mino time, recorded and failing on schedule."""

        def call(lam):
            f = self.fault
            if f and f["kind"] == "callback" and f["name"] == name and self.shot >= f["frame"] and not self.fired:
                self.fire(f["exc"])
            v = fn(lam)
            self.calls.append((name, float(lam), v))
            return v

        return call

    def __enter__(self):
        warm_up()
        stage = self
        self._real_savefig = Figure.savefig
        self._real_draw = FigureCanvasAgg.draw
        self._popen, self._which = subprocess.Popen, shutil.which
        self._time = tqdm.std.time
        tqdm.std.time = lambda: stage.now
        forget_bars()
        Figure.savefig = lambda fig, fname, *a, **kw: stage.savefig(fig, fname, *a, **kw)
        subprocess.Popen = lambda args, *a, **kw: stage.popen(args, *a, **kw)
        shutil.which = lambda cmd, *a, **kw: None if (stage.fault or {}).get("error") == "missing" else "/simulated/" + os.path.basename(str(cmd))
        if not self.real_draw:
            FigureCanvasAgg.draw = lambda canvas: None
        matplotlib.rcParams["figure.dpi"] = self.dpi
        for k, v in self.settings.items():
            matplotlib.rcParams[k] = v
        return self

    def __exit__(self, *e):
        Figure.savefig = self._real_savefig
        FigureCanvasAgg.draw = self._real_draw
        subprocess.Popen, shutil.which = self._popen, self._which
        tqdm.std.time = self._time


# ---------------------------------------------------------------- looking at figures


def axes3d(fig):
    return [a for a in fig.axes if getattr(a, "name", "") == "3d"]


def snapshot(fig):
    """What a 3D orbit figure shows, read from its artists."""
    out = {"facecolor": fig.get_facecolor(), "n_axes": len(fig.axes)}
    three = axes3d(fig)
    if not three:
        return out
    ax = three[0]
    out.update(elev=float(ax.elev), azim=float(ax.azim), roll=float(ax.roll), xlim=tuple(map(float, ax.get_xlim3d())), ylim=tuple(map(float, ax.get_ylim3d())), zlim=tuple(map(float, ax.get_zlim3d())))
    bodies, tails, colors, surfaces = [], [], [], 0
    for c in ax.collections:
        if isinstance(c, art3d.Line3DCollection):
            segs = [np.array(s, dtype=float) for s in c._segments3d] if len(c._segments3d) else []
            tails.append(segs)
            colors.append(np.array(c.get_color(), float))
        elif isinstance(c, art3d.Path3DCollection):
            o = c._offsets3d
            bodies.append([np.array(np.ma.filled(np.ma.asarray(v, dtype=float), np.nan), dtype=float).ravel() for v in o])
        elif isinstance(c, art3d.Poly3DCollection):
            surfaces += 1
    for l in ax.lines:
        d = getattr(l, "_verts3d", None)
        if d is not None:
            v = np.array([np.asarray(x, float).ravel() for x in d])
            if v.shape[1] == 1:
                bodies.append(list(v))
            elif v.shape[1] > 1:
                tails.append([v[:, i : i + 2].T for i in range(v.shape[1] - 1)])
                colors.append(np.array([to_rgba(l.get_color())]))
    out["bodies"] = [b for b in bodies if len(b[0])]
    out["tails"] = tails
    out["tail_colors"] = colors
    out["surfaces"] = surfaces
    out["lines"] = {}
    for a in fig.axes:
        if a is not ax and a.lines:
            out["lines"][a.get_ylabel()] = np.array(a.lines[0].get_data(), float)
    return out


def surface_radius(ax):
    """Distances from the origin of the corners of the surfaces drawn: (smallest, largest)."""
    r = []
    for c in ax.collections:
        if isinstance(c, art3d.Poly3DCollection):
            v = np.asarray(c._vec if hasattr(c, "_vec") else c._faces, float)
            v = v[:3].T if hasattr(c, "_vec") else v.reshape(-1, 3)
            r.append(np.linalg.norm(v, axis=1))
    if not r:
        return None
    r = np.concatenate(r)
    return float(r.min()), float(r.max())


def cartesian(r, th, ph):
    return np.stack([r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th)], axis=-1)


def hidden(points, a, elev, azim, margin=0.0):
    """Independent rule: a point is hidden inside the horizon sphere or in the cylinder behind it."""
    eh = 1 + np.sqrt(1 - a * a)
    e, z = np.radians(elev), np.radians(azim)
    n = np.array([np.cos(e) * np.cos(z), np.cos(e) * np.sin(z), np.sin(e)])
    depth = points @ n
    side = np.linalg.norm(np.cross(points, n), axis=-1)
    rad = np.linalg.norm(points, axis=-1)
    return (rad <= eh + margin) | ((depth < margin) & (side <= eh + margin))


def check_curve(segs, f, a, lo, hi, elev, azim, dens, slack):
    """The finite segments must be the curve f over [lo, hi] without its hidden parts.

    f maps Mino times to cartesian points; dens is the sampling density expected; slack is how much
    Mino time may be missing at either end.  Returns a description of what is wrong, or None.
    """
    from scipy.spatial import cKDTree

    step = 1.0 / dens
    segs = np.array(segs, dtype=float).reshape(-1, 2, 3)
    ok = np.isfinite(segs).all(axis=(1, 2))
    drawn = segs[ok]
    if hi - lo <= 2 * slack and not len(drawn):
        return None
    n = max(9, int(np.ceil((hi - lo + 2 * slack) * dens)) * 6 + 1)
    lam = np.linspace(lo - slack, hi + slack, n)
    P = f(lam)
    fin = np.isfinite(P).all(axis=1)
    gap = np.linalg.norm(np.diff(P, axis=0), axis=1)
    local = np.maximum(np.append(gap, gap[-1]), np.insert(gap, 0, gap[0]))  # size of one fine step
    local = np.where(np.isfinite(local), local, 0)
    if len(drawn):
        tree = cKDTree(P[fin])
        ends = drawn.reshape(-1, 3)
        d, i = tree.query(ends)
        idx = np.flatnonzero(fin)[i]
        # next to the horizon phi winds up without limit: those points are not judged
        eh = 1 + np.sqrt(1 - a * a)
        wound = np.linalg.norm(ends, axis=1) < eh + 0.05
        off = (d > local[idx] + 1e-6) & ~wound
        if off.any():
            k = int(np.argmax(np.where(off, d, 0)))
            return "drawn point %s is %.4g from the requested stretch of the orbit" % (np.round(ends[k], 5), d[k])
        h = hidden(ends, a, elev, azim, -1e-6)
        if h.any():
            return "drawn point %s should be hidden by the black hole" % np.round(ends[int(np.argmax(h))], 5)
        length = np.linalg.norm(drawn[:, 1] - drawn[:, 0], axis=1)
        lim = 6 * 2.2 * local[idx.reshape(-1, 2)].max(axis=1) + 1e-6
        lim[wound.reshape(-1, 2).any(axis=1)] = np.inf
        if (length > lim).any():
            k = int(np.argmax(length - lim))
            return "a drawn segment jumps from %s to %s" % (np.round(drawn[k, 0], 5), np.round(drawn[k, 1], 5))
    # everything visible must be drawn
    vis = fin & ~hidden(np.nan_to_num(P), a, elev, azim, 1e-6)
    vis &= np.linalg.norm(np.nan_to_num(P), axis=1) > 1 + np.sqrt(1 - a * a) + 0.05
    w = 13
    solid = np.convolve(vis.astype(int), np.ones(2 * w + 1, int), "same") == 2 * w + 1
    inside = (lam > lo + slack) & (lam < hi - slack)
    must = np.flatnonzero(solid & inside)
    if len(must):
        if not len(drawn):
            return "nothing is drawn although the orbit is visible at Mino time %.5g" % lam[must[0]]
        mids = np.concatenate([drawn[:, 0], drawn[:, 1], drawn.mean(axis=1)])
        d, _ = cKDTree(mids).query(P[must])
        reach = 6 * local[must] * 1.2 + 1e-6
        miss = d > reach
        if miss.any():
            k = int(np.argmax(d - reach))
            return "the visible point at Mino time %.5g is missing (nearest drawn point %.4g away)" % (lam[must[k]], d[k])
    return None


# ---------------------------------------------------------------- other pyplot users


def is_shut(fig):
    """Whether a figure has been closed (its number may belong to another one by now)."""
    m = plt._pylab_helpers.Gcf.figs.get(getattr(fig, "number", None))
    return m is None or m.canvas.figure is not fig


class Bystander:
    """Another user of pyplot in the same process, with figures of its own."""

    def __init__(self, rng):
        self.rng = rng
        self.figs = []
        self.made = 0

    def open(self):
        fig = plt.figure(num="bystander %d" % self.made)
        self.made += 1
        k = self.rng.randrange(4)
        if k == 0:
            ax = fig.add_subplot()
            ax.plot([0, 1, 2], [self.rng.random() for _ in range(3)])
        elif k == 1:
            ax = fig.add_subplot(projection="3d")
            ax.scatter([1, 2], [3, 4], [5, 6])
            if self.rng.random() < 0.5:
                ax.set_proj_type("persp", focal_length=0.5 + self.rng.random())
                ax.set_box_aspect((1, 2, 3))
        elif k == 2:
            axs = fig.subplots(2, 2)
            axs[0, 1].plot([1, 2], [3, 4], color="green")
            axs[1, 0].set_title("t")
        self.figs.append([fig, describe(fig)])

    def act(self):
        """One action of the other user; returns its name."""
        k = self.rng.randrange(7)
        if k <= 1 or not self.figs:
            self.open()
            return "figure opened"
        fig = self.rng.choice(self.figs)
        if k == 2:
            if not is_shut(fig[0]):
                plt.figure(fig[0].number)
            return "figure made current"
        if k == 3:
            plt.close(fig[0])
            fig[1] = describe(fig[0])
            return "figure closed"
        if k == 4:
            if not is_shut(fig[0]):
                plt.figure(fig[0].number)
                plt.gca().set_xlabel("x%d" % self.rng.randrange(99))
                fig[1] = describe(fig[0])
            return "figure drawn on through pyplot"
        if k == 5:
            if fig[0].axes:
                fig[0].axes[0].set_ylim(self.rng.random(), 2 + self.rng.random())
                fig[1] = describe(fig[0])
            return "figure drawn on directly"
        if not is_shut(fig[0]):
            plt.figure(fig[0].number)
            plt.clf()
            fig[1] = describe(fig[0])
        return "figure cleared"

    def disturbed(self):
        for fig, want in self.figs:
            got = describe(fig)
            if got != want:
                return "figure %r changed: %s" % (fig.get_label() or fig.number, next("%r -> %r" % (p, q) for p, q in zip(want + ["nothing"], got + ["nothing"]) if p != q))
        return None


def describe(fig):
    """A comparable description of everything on a figure."""
    out = ["closed" if is_shut(fig) else "open", tuple(fig.get_size_inches()), tuple(fig.get_facecolor()), len(fig.axes)]
    for ax in fig.axes:
        out.append((type(ax).__name__, ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), tuple(ax.get_xlim()), tuple(ax.get_ylim()), ax.axison, str(ax.get_aspect()), tuple(ax.get_facecolor()), ax.get_visible()))
        if ax.name == "3d":
            out.append((ax.elev, ax.azim, ax.roll, tuple(ax.get_zlim()), ax._focal_length, tuple(ax._box_aspect), ax.get_zlabel()))
        for art in ax.get_children():
            d = [type(art).__name__, art.get_visible()]
            if hasattr(art, "get_data") and type(art).__name__.startswith("Line"):
                d.append(repr(np.asarray(getattr(art, "_verts3d", None) if hasattr(art, "_verts3d") else art.get_data()).tolist()))
            if hasattr(art, "_offsets3d"):
                d.append(repr([np.asarray(v).tolist() for v in art._offsets3d]))
            if hasattr(art, "_segments3d"):
                d.append(len(art._segments3d))
            out.append(tuple(d))
    return out

