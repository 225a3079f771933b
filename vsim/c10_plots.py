"""C10: plots are faithful and isolated from other figures and callers."""
from . import c08_frames, env, ops, sched, stage
from .runner import Result
import os
import random
import shutil
import tempfile

import matplotlib.pyplot as plt
import numpy as np

RUNS = {"quick": 700, "thorough": 25000}
BUDGET = {"quick": 170, "thorough": 1700}
RULE = (
    "each run plots one to four seeded stretches of one or two orbits while other users of pyplot "
    "open, select, draw on, clear and close figures of their own before, between and (at seeded "
    "library lines) during the plots, other plots and animations run nested inside or on other "
    "simulated threads, callers scribble on earlier results and requests are refused or interrupted; "
    "every figure returned is compared with the orbit, the requested options and an independent "
    "visibility rule at once and again at the end, every other figure with what its owner left.  "
    "Non-trivial: something else happened before the last plot was finished."
)
TIME_UNIT = "Mino time plotted"
STATE_MEASURE = "distinct (orbit family, options, what happened, library position it happened at)"
REAL = ["every kerrgeopy module (executed from /repo)", "numpy", "scipy", "matplotlib figures and axes", "Agg rendering (in the runs marked render)"]
STUBS = ["other users of pyplot", "thread scheduler", "delivery of interrupts", "encoder process (for animations made meanwhile)"]
ASSUMPTIONS = [
    "other users act between library lines, and each of their actions is atomic",
    "the curve may stop one sample short of either end of the requested stretch",
    "points within 1e-6 of the edge of the black hole's silhouette may be either drawn or left out; points within 0.05 of a horizon crossing are not judged",
]


def gen_plot(rng):
    kw = {}
    lam0 = rng.choice([0, 0, 0, 1, -2, 3.5, ops.r6(rng.uniform(-6, 6)), 40])
    span = rng.choice([0.1, 0.3, 1, 2, 3, 5, ops.r6(rng.uniform(0.05, 4)), 10])
    if lam0 or rng.random() < 0.7:
        kw["lambda0"] = lam0
    kw["lambda1"] = lam0 + span
    if rng.random() < 0.05:
        del kw["lambda1"]
        kw["lambda0"] = 0
    if rng.random() < 0.6:
        kw["elevation"] = rng.choice([0, 90, -90, 30, -20, 60, ops.r6(rng.uniform(-90, 90)), 120])
    if rng.random() < 0.6:
        kw["azimuth"] = rng.choice([0, 90, -90, 180, 45, ops.r6(rng.uniform(-180, 180)), 400])
    if rng.random() < 0.45:
        kw["initial_phases"] = ops.gen_phases(rng)
    for o in ("grid", "axes"):
        if rng.random() < 0.2:
            kw[o] = False
    if rng.random() < 0.3:
        kw["color"] = rng.choice(["blue", "#12ab34", "green", "black", "C3"])
    if rng.random() < 0.3:
        kw["lw"] = rng.choice([0.5, 2, 4])
    if rng.random() < 0.2:
        kw["tau"] = rng.choice([0.5, 2, 10])
    if rng.random() < 0.4:
        kw["point_density"] = rng.choice([100, 150, 250, 400, 1000 if span < 2 else 300])
    return kw


NOISE = ["bystander"] * 6 + ["plot", "plot", "animate", "failing animate", "ask", "refused", "scribble", "clock"]


def gen(rng, i, tier):
    defs = {"o0": ops.gen_obj(rng, rng.choice([("stable",), ("stable",), ("plunge",), ("orbit", "from_constants")]))}
    if rng.random() < 0.5:
        defs["o1"] = ops.vary(rng, defs["o0"]) if rng.random() < 0.7 else ops.gen_obj(rng)
    names = sorted(defs)
    mode = "threads" if rng.random() < 0.25 else "seq"
    plots = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        kw = gen_plot(rng)
        if plots and rng.random() < 0.4:
            kw = dict(rng.choice(plots)["kw"])
            if rng.random() < 0.6:
                k = rng.choice(["azimuth", "color", "elevation", "initial_phases", "lambda0"])
                g = gen_plot(rng)
                if k in g and k != "lambda0":
                    kw[k] = g[k]
        plots.append({"o": rng.choice(names), "kw": kw, "during": [], "before": [], "cut": None})
        p = plots[-1]
        for _ in range(rng.choice([0, 1, 2, 3])):
            p["before"].append({"what": rng.choice(NOISE), "seed": rng.randrange(1 << 30)})
        if mode == "seq":
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                p["during"].append({"at": rng.randrange(0, 45), "what": rng.choice(NOISE[:9]), "seed": rng.randrange(1 << 30)})
            if rng.random() < 0.1:
                p["cut"] = [rng.choice(["KeyboardInterrupt", "MemoryError", "Cancelled"]), rng.randrange(1, 60)]
    plan = {"defs": defs, "plots": plots, "mode": mode, "earlier": rng.choice([0, 1, 2, 3] * 5 + [6, 11, 22]), "render": rng.random() < 0.03, "settings": stage.gen_settings(rng)}
    if mode == "threads":
        plan["policy"] = {"mode": "random", "seed": rng.randrange(1 << 30), "gap": rng.choice([3, 10, 40, 200]), "prio": rng.random() < 0.3}
        plan["others"] = [{"what": "bystander", "seed": rng.randrange(1 << 30)} for _ in range(rng.randrange(0, 12))]
    return plan


def lists(plan):
    out = [("plots",)] + [("plots", i, k) for i in range(len(plan["plots"])) for k in ("during", "before")]
    return out + ([("others",)] if "others" in plan else [])


def simplify(plan):
    for i, p in enumerate(plan["plots"]):
        for k in list(p["kw"]):
            if k not in ("lambda0", "lambda1"):
                q = dict(p, kw={j: v for j, v in p["kw"].items() if j != k})
                yield dict(plan, plots=plan["plots"][:i] + [q] + plan["plots"][i + 1 :])
        if p["cut"]:
            yield dict(plan, plots=plan["plots"][:i] + [dict(p, cut=None)] + plan["plots"][i + 1 :])
    if plan["earlier"]:
        yield dict(plan, earlier=0)
    if plan["mode"] == "threads":
        yield {k: v for k, v in dict(plan, mode="seq").items() if k not in ("policy", "others")}


def with_decisions(plan, log):
    return dict(plan, policy=dict(plan["policy"], mode="log", log=log)) if plan["mode"] == "threads" else plan


class Room:
    """One simulated process with its orbits, its other users and the figures plotted so far."""

    def __init__(self, plan, res, st, scratch):
        self.plan, self.res, self.st, self.scratch = plan, res, st, scratch
        self.w, self.ref = ops.World(plan["defs"]), ops.World(plan["defs"])
        self.user = stage.Bystander(random.Random(5))
        self.kept = []  # [figure, description, label]
        self.acted = 0
        self.seen = []  # every figure plot() has returned

    def noise(self, ev, o, at=None):
        res, what = self.res, ev["what"]
        rng = random.Random(ev["seed"])
        self.acted += 1
        self.res.state(what, at, self.plan["defs"]["o0"]["k"])
        if what == "scribble":
            if self.kept:
                k = rng.randrange(len(self.kept))
                fig = self.kept[k][0]
                kind = rng.randrange(4)
                if kind == 0:
                    plt.close(fig)
                elif kind == 1:
                    fig.clear()
                elif kind == 2 and fig.axes:
                    fig.axes[0].set_title("mine")
                    fig.axes[0].view_init(1, 2)
                elif fig.axes:
                    fig.axes[0].collections[0].remove() if fig.axes[0].collections else None
                self.kept[k][1] = stage.describe(fig)
                res.faults["caller changes a figure it was given"] += 1
            return
        if what == "refused":
            for kw in rng.sample([{"lambda1": -5}, {"color": "no such colour", "lambda1": 1}, {"lambda1": None}, {"initial_phases": (1, 2)}, {"elevation": "up"}, {"point_density": -3}], 2):
                before = plt.get_fignums()
                try:
                    o.plot(**kw)
                except Exception:
                    res.faults["refused plot"] += 1
                # a figure half made by the refused request is not anybody's
                for n in plt.get_fignums():
                    if n not in before:
                        plt.close(n)
            return
        c08_frames.act(res, self.st, ev, self.user, o, self.scratch, None)

    def plot(self, p, label):
        """One plot request; returns False when the run should stop."""
        res = self.res
        o = self.w.obj(p["o"])
        for e in p["before"]:
            self.noise(e, o)
        during = {}
        for e in p["during"]:
            during.setdefault(e["at"], []).append(e)
        n = [0]
        tracer = None
        if during or p["cut"]:

            def note(frame):
                f, depth = frame.f_back, 0
                while f is not None and f.f_code.co_filename.startswith(sched.PREFIX):
                    depth, f = depth + 1, f.f_back
                if depth > 1 or (depth == 1 and n[0] < 8):
                    return
                n[0] += 1
                todo = during.pop(n[0], ())
                if p["cut"] and n[0] == p["cut"][1]:
                    tracer.at = tracer.n
                if todo:
                    import sys

                    t = sys.gettrace()
                    sys.settrace(None)
                    try:
                        for e in todo:
                            self.noise(e, o, (frame.f_code.co_name, frame.f_lineno))
                    finally:
                        sys.settrace(t)

            tracer = sched.Tracer(exc=sched.INTERRUPTS[p["cut"][0]] if p["cut"] else None, on_event=note, cap=30)
        before = set(plt.get_fignums())
        try:
            kw = ops.dec_kw(p["kw"])
            out = tracer.run(lambda: o.plot(**kw)) if tracer else o.plot(**kw)
        except (KeyboardInterrupt, MemoryError, sched.Cancelled) as e:
            if tracer is None or not tracer.fired:
                raise
            res.faults["interrupted plot: " + type(e).__name__] += 1
            # a half made figure is not anybody's
            mine = {id(f[0]) for f in self.user.figs} | {id(k[0]) for k in self.kept}
            for num, m in list(plt._pylab_helpers.Gcf.figs.items()):
                if id(m.canvas.figure) not in mine:
                    plt.close(num)
            return True
        res.steps += n[0]
        self.judge(p, out, label)
        return not res.violations

    def judge(self, p, out, label):
        res, kw = self.res, p["kw"]
        d = self.plan["defs"][p["o"]]
        lam0, lam1 = float(kw.get("lambda0", 0)), float(kw.get("lambda1", 10))

        def bad(klass, msg):
            res.bad(klass, "%s, %s of %s with %s: %s" % (label, "plot", p["o"], kw, msg))

        if not (isinstance(out, tuple) and len(out) == 2):
            return bad("result", "returned %r" % (out,))
        fig, ax = out
        if any(fig is f for f in self.seen) or any(fig is f[0] for f in self.user.figs):
            return bad("not new", "the figure returned is not a new one")
        self.seen.append(fig)
        if ax not in fig.axes or ax.figure is not fig:
            return bad("result", "the axes returned do not belong to the figure returned")
        if len(fig.axes) != 1:
            return bad("result", "the figure has %d axes" % len(fig.axes))
        s = stage.snapshot(fig)
        if "elev" not in s:
            return bad("result", "the figure has no 3D axes")
        res.counts["plots judged"] += 1
        res.sim_time += lam1 - lam0
        elev, azim = kw.get("elevation", 30), kw.get("azimuth", -60)
        for name, g, w in (("elevation", s["elev"], elev), ("azimuth", s["azim"], azim), ("roll", s["roll"], 0)):
            if not abs(g - w) < 1e-9:
                return bad("view", "the %s is %r, requested %r" % (name, g, w))
        if bool(ax._axis3don) != kw.get("axes", True) or bool(ax._draw_grid) != kw.get("grid", True):
            return bad("view", "grid shown: %s, axes shown: %s" % (ax._draw_grid, ax._axis3don))
        o_ref = self.ref.objs[p["o"]]
        a = abs(o_ref.a)
        with self.ref.uni:
            fns = o_ref.trajectory(kw.get("initial_phases") and tuple(kw["initial_phases"]))
        f = c08_frames.curve(fns)
        # the body
        if len(s["bodies"]) != 1 or any(len(v) != 1 for v in s["bodies"][0]):
            return bad("body", "%d bodies are shown" % sum(len(b[0]) for b in s["bodies"]))
        body = np.array([v[0] for v in s["bodies"][0]], float)
        end = f(np.array([lam1]))[0]
        eh = 1 + np.sqrt(1 - a * a)
        move = np.linalg.norm(f(np.array([lam1 + 1e-9]))[0] - f(np.array([lam1 - 1e-9]))[0])
        near = abs(np.linalg.norm(end) - eh) < 0.03
        if np.isfinite(end).all() and not near and np.isfinite(move) and move < 0.05:
            if not np.linalg.norm(body - end) <= move + 1e-8 * (1 + np.linalg.norm(end)):
                return bad("body", "the body is at %s, the orbit ends at %s" % (body, end))
            res.counts["body positions compared"] += 1
        # the curve
        if len(s["tails"]) != 1:
            return bad("curve", "%d curves are drawn" % len(s["tails"]))
        dens = kw.get("point_density", 200)
        msg = stage.check_curve(s["tails"][0], f, a, lam0, lam1, elev, azim, dens, 1.3 / dens)
        res.counts["curves compared"] += 1
        if msg:
            return bad("curve", msg)
        want = stage.to_rgba(kw.get("color", "red"))
        if len(s["tail_colors"][0]) and not np.allclose(np.atleast_2d(s["tail_colors"][0])[:, :3], want[:3]):
            return bad("color", "the curve's colour is %s, requested %s" % (s["tail_colors"][0][0], want))
        # the black hole
        rad = stage.surface_radius(ax)
        if rad is None or not np.allclose(rad, eh, rtol=1e-6):
            return bad("black hole", "the black hole's radius is %s, expected %r" % (rad, eh))
        # everything drawn is within the limits
        pts = np.array(s["tails"][0], float).reshape(-1, 3)
        pts = pts[np.isfinite(pts).all(axis=1)]
        pts = np.concatenate([pts, 0.98 * np.array([[eh, eh, eh], [-eh, -eh, -eh]])])
        for i, lim in enumerate((s["xlim"], s["ylim"], s["zlim"])):
            lo, hi = min(lim), max(lim)
            tol = 1e-3 * (hi - lo)
            if pts[:, i].min() < lo - tol or pts[:, i].max() > hi + tol:
                return bad("limits", "axis %d is limited to %s but is drawn on from %.6g to %.6g" % (i, lim, pts[:, i].min(), pts[:, i].max()))
        if self.plan["render"]:
            fig.canvas.draw()
            res.faults["figure really rendered"] += 1
        self.kept.append([fig, stage.describe(fig), label])

    def settle(self):
        """At the end of the run nothing handed out, and nobody else's figure, has changed."""
        msg = self.user.disturbed()
        if msg:
            self.res.bad("other figures", msg)
        for fig, want, label in self.kept:
            got = stage.describe(fig)
            if got != want:
                self.res.bad("later change", "the figure of %s has changed since: %s" % (label, next("%r -> %r" % pq for pq in zip(want + ["nothing"], got + ["nothing"]) if pq[0] != pq[1])))


def run(plan):
    res = Result()
    scratch = tempfile.mkdtemp(dir=env.SCRATCH or "/tmp")
    try:
        with stage.Stage(real_draw=plan["render"], settings=plan.get("settings")) as st:
            room = Room(plan, res, st, scratch)
            with room.ref.uni:
                for n in sorted(plan["defs"]):
                    if ops.outcome(lambda: room.ref.obj(n))[0] == "err":
                        # not an orbit: its plots are made of the other one
                        plan["plots"] = [dict(p, o="o0") for p in plan["plots"]]
                        plan["defs"] = {"o0": plan["defs"]["o0"]}
                        room.w.defs = plan["defs"]
            with room.w.uni:
                for n in plan["defs"]:
                    room.w.obj(n)
                for _ in range(plan["earlier"]):
                    room.user.open()
                if plan["mode"] == "threads":
                    threads(plan, res, room)
                else:
                    for i, p in enumerate(plan["plots"]):
                        if not room.plot(p, "plot %d" % i):
                            break
                        msg = room.user.disturbed()
                        if msg:
                            res.bad("other figures", "after plot %d: %s" % (i, msg))
                            break
                if not res.violations:
                    room.settle()
            d0 = plan["defs"]["o0"]["k"]
            for p in plan["plots"]:
                res.state(d0, sorted(p["kw"]), bool(p["cut"]))
            res.nontrivial = room.acted > 0 or plan["earlier"] > 0 or plan["mode"] == "threads" or len(plan["plots"]) > 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res.sample = {"defs": plan["defs"], "plot": plan["plots"][0] if plan["plots"] else None, "mode": plan["mode"]}
    return res


def threads(plan, res, room):
    """Each plot request on its own simulated thread, another user of pyplot on one more."""
    s = sched.Scheduler(plan["policy"], limit=4_000_000)
    done = []
    errors = []

    def plotter(p, i):
        def body():
            s.new_request()
            try:
                o = room.w.obj(p["o"])
                for e in p["before"]:
                    if e["what"] == "bystander":
                        room.noise(e, o)
                done.append((p, o.plot(**ops.dec_kw(p["kw"])), i))
            except Exception as e:
                errors.append((p, e))

        return body

    def other():
        s.new_request()
        o = room.w.obj("o0")
        h = o.trajectory()
        for e in plan["others"]:
            room.noise(e, o)
            with np.errstate(all="ignore"):
                h[1](0.5)  # library code: a scheduling point between two actions

    for i, p in enumerate(plan["plots"]):
        s.spawn(plotter(p, i))
    if plan["others"]:
        s.spawn(other)
    res.decisions = s.run()
    res.steps += s.steps
    res.faults["preemption"] += len(s.log) - 1
    res.state(tuple(s.trace_sig[:40]))
    for p, e in errors:
        tb, inside = e.__traceback__, False
        while tb is not None:
            inside = inside or tb.tb_frame.f_code.co_filename.startswith(env.PKGDIR)
            tb = tb.tb_next
        if not inside:
            raise e
        res.bad("raises", "plot with %s next to other callers raises %r" % (p["kw"], e))
    for p, out, i in done:
        if not res.violations:
            room.judge(p, out, "plot %d on its own thread" % i)
