"""C08: an animation delivers every frame once, in order and in step."""
from . import ops, stage
from .runner import Result
import random

import matplotlib.pyplot as plt
import numpy as np

RUNS = {"quick": 700, "thorough": 20000}
BUDGET = {"quick": 170, "thorough": 1700}
RULE = (
    "each run makes one or two animations of a bound or plunging orbit (seeded duration, speed, "
    "start, tail, camera / roll / limit functions, initial phases, options) while other pyplot users "
    "and other plots and animations of the same orbit act between frames; every frame handed to the "
    "simulated encoder is recorded and compared with the orbit, the caller's functions and an "
    "independent visibility rule.  Non-trivial: at least 3 frames delivered."
)
TIME_UNIT = "Mino time animated"
STATE_MEASURE = "distinct (orbit family, speed, tail shorter or longer than the animation, options, what happened between frames)"
REAL = ["every kerrgeopy module (executed from /repo)", "numpy", "scipy", "matplotlib figures, FuncAnimation and FFMpegWriter", "Agg rendering (in the runs marked real_draw)"]
STUBS = ["encoder process (subprocess.Popen)", "Agg rendering of each frame (other runs)", "other users of pyplot", "clock read by library code"]
ASSUMPTIONS = [
    "frame i shows Mino time lambda0 + i * speed / 30, to within one sample (1/240)",
    "the tail may stop up to two samples short of the body and of the tail length",
    "points within 1e-6 of the edge of the black hole's silhouette may be either drawn or left out",
]
COORDS = ("$t$", "$r$", r"$\theta$", r"$\phi$")


def gen_anim(rng, tier, short=False):
    k = rng.choice([1, 2, 3, 4, 5, 6, 8, 8, 10, 12, 15, 16, 24, 32, 60])
    n = rng.randrange(1, 9) if short else rng.choice([1, 2, 4, 7, 12, 20, 31])
    if k == 1:
        n = rng.choice([6, 30]) if not short else 6
    long = not short and rng.random() < 0.02
    if long:  # more frames than matplotlib keeps
        k, n = rng.choice([1, 2, 4, 8, 16]), rng.choice([101, 130, 210, 330])
    speed = k / 8
    span = n * speed / 30
    if rng.random() < 0.5:  # a duration in tenths, as users give them
        span = max(0.1, round(span, 1))
    lam0 = rng.choice([0, 0, 0, 1, -2, 0.5, 2.2, -1.3, 7.25, 40, ops.r6(rng.uniform(-5, 5))])
    if span * 30 / speed > 45 and not long:
        speed = max(1, int(span * 30 / 45 * 8) + 1) / 8
    if speed == int(speed) and rng.random() < 0.5:
        speed = int(speed)
    kw = {"lambda0": lam0, "lambda1": lam0 + span, "speed": speed}
    if rng.random() < 0.8:
        kw["tail_length"] = rng.choice([5, 1, 2, 0.5, 0.25, 0.1, 0.05, ops.r6(rng.uniform(0.02, 2)), 20])
    if rng.random() < 0.4:
        kw["elevation"] = rng.choice([30, 0, 90, -45, 12.5])
        kw["azimuth"] = rng.choice([-60, 0, 135, 17.5])
    if rng.random() < 0.3:
        kw["background_color"] = rng.choice(["black", "white", "#102030"])
    for o in ("grid", "axes"):
        if rng.random() < 0.2:
            kw[o] = False
    if rng.random() < 0.2:
        kw["tau"] = rng.choice([0.5, 2, 10])
        kw["lw"] = rng.choice([1, 3.5])
        kw["color"] = rng.choice(["blue", "red"])
    comp = rng.random() < 0.2
    if comp:
        kw["plot_components"] = True
    if rng.random() < 0.35:
        kw["initial_phases"] = ops.gen_phases(rng)
    fns = {}
    for name in ("azimuthal_pan", "elevation_pan", "roll", "axis_limit"):
        if rng.random() < 0.3:
            fns[name] = [rng.choice(["lin", "sin", "step", "off"]), ops.r6(rng.uniform(5, 60)), ops.r6(rng.uniform(-20, 40))]
    return {"kw": kw, "fns": fns, "name": rng.choice(["orbit.mp4", "a b.mp4", "x.gif", "clip"])}


def gen(rng, i, tier):
    d = ops.gen_obj(rng, rng.choice([("stable",), ("stable",), ("plunge",), ("orbit", "from_constants")]))
    real = rng.random() < 0.04
    plan = {"orbit": d, "anims": [gen_anim(rng, tier, short=real)], "real_draw": real, "dpi": rng.choice([5, 7, 10, 12]) if real else 10, "noise": [], "settings": stage.gen_settings(rng)}
    if rng.random() < 0.12:
        plan["anims"].append(gen_anim(rng, tier, short=True))
    if rng.random() < 0.6:
        for _ in range(rng.randrange(1, 6)):
            plan["noise"].append({"frame": rng.randrange(0, 12), "what": rng.choice(["bystander", "bystander", "bystander", "plot", "animate", "failing animate", "ask", "clock"]), "seed": rng.randrange(1 << 30)})
    return plan


def lists(plan):
    return [("noise",), ("anims",)]


def simplify(plan):
    for i, an in enumerate(plan["anims"]):
        for k in list(an["kw"]):
            if k not in ("lambda0", "lambda1", "speed"):
                yield dict(plan, anims=plan["anims"][:i] + [dict(an, kw={j: v for j, v in an["kw"].items() if j != k})] + plan["anims"][i + 1 :])
        for k in list(an["fns"]):
            yield dict(plan, anims=plan["anims"][:i] + [dict(an, fns={j: v for j, v in an["fns"].items() if j != k})] + plan["anims"][i + 1 :])
    if plan.get("settings"):
        yield dict(plan, settings={})
    if plan["real_draw"]:
        yield dict(plan, real_draw=False)


def make_fn(name, spec):
    kind, amp, off = spec
    if name == "axis_limit":
        amp, off = amp / 3 + 2, abs(off) + 3
    if kind == "lin":
        return lambda lam: (abs(amp * lam) + off) if name == "axis_limit" else amp * lam + off
    if kind == "off" and name != "axis_limit":  # nothing, now and then
        return lambda lam: amp if int(np.floor(lam * 11)) % 2 else 0
    if kind == "sin":
        return lambda lam: off + amp * (1.1 + np.sin(3 * lam))
    return lambda lam: off + amp * (1 + int(np.floor(lam * 7)) % 3)


def animate(st, o, an, scratch):
    kw = ops.dec_kw(an["kw"])
    for name, spec in an["fns"].items():
        kw[name] = st.callback(name, make_fn(name, spec))
    return o.animate(scratch + "/" + an["name"], **kw)


def expected_frames(kw):
    """Accepted frame counts: exact when the duration holds a whole number of frames."""
    n = (kw["lambda1"] - kw["lambda0"]) / kw["speed"] * 30
    if abs(n - round(n)) < 1e-6 * max(1, n):
        return {round(n)}
    return {int(n), int(n) + 1}


def curve(fns):
    def f(lam):
        with np.errstate(all="ignore"):
            return stage.cartesian(*[np.asarray(g(lam), float) for g in fns[1:]])

    return f


def infer(f, body, nominal, kw, n):
    """Mino times of the frames: evenly spaced ones near the nominal that fit the bodies best."""
    lam0 = nominal[0]
    i = np.arange(n)
    ds = [kw["speed"] / 30]
    pts = int(round((kw["lambda1"] - kw["lambda0"]) * 240, 6))
    if pts > 1:
        ds.append(int(kw["speed"] * 8) * (kw["lambda1"] - kw["lambda0"]) / (pts - 1))
    for k in {n - 1, n // 2, 3 * n // 4} - {0}:
        grid = nominal[k] + np.linspace(-2, 2, 801) / 240
        for _ in range(2):
            d = np.linalg.norm(f(grid) - body[k], axis=1)
            if not np.isfinite(d).any():
                break
            m = int(np.nanargmin(d))
            best = grid[m]
            grid = best + np.linspace(-1, 1, 401) * (grid[1] - grid[0])
            ds.append((best - lam0) / k)
    fits = []
    for d in ds:
        e = np.linalg.norm(f(lam0 + d * i) - body, axis=1)
        fits.append(np.sum(np.minimum(np.nan_to_num(e, nan=1.0), 1.0)))
    return lam0 + ds[int(np.argmin(fits))] * i


def judge(res, an, shots, st_procs, o_ref, ref_uni, a, label, full=None):
    """Compare everything the encoder received with what was asked for."""
    kw = an["kw"]

    def bad(klass, msg):
        res.bad(klass, "%s (%s -> %s at speed %s): %s" % (label, kw["lambda0"], kw["lambda1"], kw["speed"], msg))
        return False

    if len(st_procs) != 1:
        return bad("encoder", "%d encoder processes were started" % len(st_procs))
    p = st_procs[0]
    want = expected_frames(kw)
    res.counts["animations judged"] += 1
    res.counts["frames delivered"] += len(shots)
    if len(shots) not in want or (full is not None and len(shots) != full):
        return bad("frame count", "%d frames were delivered, %s expected" % (len(shots), full or sorted(want)))
    sizes = {(s["size"], s["bytes"]) for s in shots}
    if len(sizes) > 1 or shots and (p.size != shots[0]["size"] or shots[0]["bytes"] != p.frame_bytes):
        return bad("frame size", "frames of sizes %s were written to an encoder expecting %s" % (sizes, p.size))
    if p.rate is not None and p.rate != 30:
        return bad("frame rate", "the encoder was told %s frames per second" % p.rate)
    if not shots:
        return True
    with ref_uni:
        fns = o_ref.trajectory(kw.get("initial_phases") and tuple(kw["initial_phases"]))
    f = curve(fns)
    lam0, n = float(kw["lambda0"]), len(shots)
    nominal = lam0 + np.arange(n) * kw["speed"] / 30
    body = []
    for i, s in enumerate(shots):
        if "elev" not in s:
            return bad("content", "frame %d has no 3D view" % i)
        if len(s["bodies"]) != 1 or any(len(v) != 1 for v in s["bodies"][0]):
            return bad("body", "frame %d shows %d bodies" % (i, sum(len(b[0]) for b in s["bodies"])))
        body.append([float(v[0]) for v in s["bodies"][0]])
    body = np.array(body)
    # the Mino time of each frame: the caller's functions were told it, otherwise it is inferred
    told = [sorted({c[1] for c in s["calls"]}) for s in shots]
    if an["fns"]:
        lam = []
        for i, s in enumerate(shots):
            last = {}
            for name, l, v in s["calls"]:
                last[name] = (l, v)
            if set(last) != set(an["fns"]):
                return bad("callbacks", "frame %d was drawn with only %s of %s asked" % (i, sorted(last), sorted(an["fns"])))
            ls = {l for l, _ in last.values()}
            if max(ls) - min(ls) > 1e-12:
                return bad("callbacks", "in frame %d the caller's functions were asked at different Mino times %s" % (i, sorted(ls)))
            s["told"] = last
            lam.append(ls.pop())
        lam = np.array(lam)
    else:
        lam = infer(f, body, nominal, kw, n)
    off = np.abs(lam - nominal) > (0.5 + 1.3 * np.arange(n) / n) / 240
    if off.any():
        i = int(np.argmax(off))
        return bad("timing", "frame %d shows Mino time %.9g, expected %.9g" % (i, lam[i], nominal[i]))
    if n > 2:
        gap = np.diff(lam)
        if np.ptp(gap) > 1e-9 * (1 + np.abs(lam).max()):
            i = int(np.argmax(np.abs(gap - np.median(gap))))
            return bad("spacing", "Mino time advances by %.9g from frame %d to %d, by %.9g elsewhere" % (gap[i], i, i + 1, np.median(gap)))
    want_body = f(lam)
    eps = 1e-9 if an["fns"] else 3e-5
    move = np.linalg.norm(f(lam + eps) - f(lam - eps), axis=1) + 1e-8 * (1 + np.linalg.norm(want_body, axis=1))
    err = np.linalg.norm(body - want_body, axis=1)
    eh = 1 + np.sqrt(1 - a * a)
    # next to a horizon phi winds up without limit: not judged there
    fin = np.isfinite(want_body).all(axis=1) & (np.abs(np.linalg.norm(np.nan_to_num(want_body), axis=1) - eh) > 0.03) & (move < 0.05)
    wrong = fin & ~(err <= move)
    res.counts["body positions compared"] += int(fin.sum())
    if wrong.any():
        i = int(np.argmax(wrong))
        return bad("body", "in frame %d (Mino time %.9g) the body is at %s, the orbit at %s" % (i, lam[i], body[i], want_body[i]))
    # camera, roll, limits
    for i, s in enumerate(shots):
        t = s.get("told", {})
        cam = (
            ("elevation", s["elev"], t.get("elevation_pan", (0, kw.get("elevation", 30)))[1]),
            ("azimuth", s["azim"], t.get("azimuthal_pan", (0, kw.get("azimuth", -60)))[1]),
            ("roll", s["roll"], t.get("roll", (0, 0))[1]),
        )
        for name, g, w in cam:
            if not abs(g - w) < 1e-9 * (1 + abs(w)):
                return bad("camera", "in frame %d (Mino time %.9g) the %s is %r, expected %r" % (i, lam[i], name, g, w))
        if "axis_limit" in t:
            L = t["axis_limit"][1]
            for ax in ("xlim", "ylim", "zlim"):
                if not np.allclose(s[ax], (-L, L), rtol=1e-9):
                    return bad("limits", "in frame %d %s is %s, expected +-%r" % (i, ax, s[ax], L))
        elif s["xlim"] != shots[0]["xlim"] or s["zlim"] != shots[0]["zlim"]:
            return bad("limits", "the axis limits change between frames 0 and %d" % i)
    # the tail, in a few frames
    T = float(kw.get("tail_length", 5))
    pick = sorted({0, n - 1, n // 2, min(n - 1, max(0, int(T / (kw["speed"] / 30)) + 1))})
    for i in pick:
        s = shots[i]
        if len(s["tails"]) != 1:
            return bad("tail", "frame %d has %d tails" % (i, len(s["tails"])))
        lo = max(lam0, lam[i] - T)
        msg = stage.check_curve(s["tails"][0], f, a, lo, max(lo, lam[i]), s["elev"], s["azim"], 240, 2.2 / 240)
        res.counts["tails compared"] += 1
        if msg:
            return bad("tail", "in frame %d (Mino time %.9g): %s" % (i, lam[i], msg))
        if kw.get("plot_components"):
            for c, g in zip(COORDS, fns):
                if c not in s["lines"]:
                    return bad("components", "frame %d has no plot of %s" % (i, c))
                x, y = s["lines"][c]
                if len(x) and (x.min() < lam0 - 1e-9 or x.max() > lam[i] + 1e-9):
                    return bad("components", "frame %d plots %s over Mino times %.6g to %.6g" % (i, c, x.min(), x.max()))
                if lam[i] - lam0 > 3 / 240 and (not len(x) or x.max() < lam[i] - 2.2 / 240 or x.min() > lam0 + 1.1 / 240):
                    return bad("components", "frame %d plots %s over too short a time" % (i, c))
                with np.errstate(all="ignore"):
                    w = np.asarray(g(x), float) if len(x) else x
                ok = np.isfinite(w)
                if not np.allclose(y[ok], w[ok], rtol=1e-8, atol=1e-8):
                    return bad("components", "frame %d plots a wrong %s" % (i, c))
    # background
    if kw.get("background_color") and shots:
        c = stage.to_rgba(kw["background_color"])
        for i, s in enumerate(shots):
            g = s["savecolor"]
            if g is None or isinstance(g, str) and g == "auto":
                g = s["facecolor"]
            if not np.allclose(stage.to_rgba(g)[:3], c[:3]):
                return bad("background", "frame %d is saved with background %r" % (i, g))
    return True


def act(res, st, ev, user, o, scratch, w):
    """Something else that happens in the process between two frames."""
    rng = random.Random(ev["seed"])
    what = ev["what"]
    if what == "bystander":
        res.faults["pyplot user: " + user.act()] += 1
    elif what == "clock":
        from . import sched

        sched.clock[0] += rng.choice([-3600.0, 5.0, 1e6])
        res.faults["clock jump"] += 1
    elif what == "ask":
        with np.errstate(all="ignore"):
            for g in o.trajectory(initial_phases=tuple(ops.gen_phases(rng))):
                g(np.linspace(0, 1, 7))
        res.faults["same orbit asked by another caller"] += 1
    else:
        keep = {k: st.__dict__[k] for k in ("procs", "shots", "calls", "shot", "on_frame", "finishing", "fault", "fired", "injected")}
        st.reset()
        try:
            if what == "plot":
                fig, _ = o.plot(0, ops.r6(rng.uniform(0.2, 2)))
                if rng.random() < 0.5:
                    plt.close(fig)
                else:
                    user.figs.append([fig, stage.describe(fig)])
                res.faults["same orbit plotted by another caller"] += 1
            else:
                an = gen_anim(rng, "quick", short=True)
                an["name"] = "other " + an["name"]
                if what == "failing animate":
                    st.reset(fault=rng.choice([{"kind": "spawn", "error": "missing"}, {"kind": "dies", "frame": 1, "part": 0.5}, {"kind": "fails at end", "rc": 1}, {"kind": "interrupt_draw", "frame": 1, "exc": RuntimeError}]))
                try:
                    animate(st, o, an, scratch)
                except Exception as e:
                    if not st.fired:
                        raise
                    res.faults["animation of the same orbit by another caller fails"] += 1
                else:
                    res.faults["same orbit animated by another caller"] += 1
        finally:
            for p in st.procs:
                if not p.waited:
                    res.bad("encoder left", "an encoder process of a %s between frames was never waited for" % what)
            st.__dict__.update(keep)


def run(plan):
    from . import env
    import os

    res = Result()
    defs = {"o": plan["orbit"]}
    w, rw = ops.World(defs), ops.World(defs)
    scratch = env.SCRATCH or "/tmp"
    with rw.uni:
        o_ref = rw.obj("o")
    a = abs(plan["orbit"]["args"][0])
    user = stage.Bystander(random.Random(7))
    with w.uni, stage.Stage(plan["real_draw"], plan["dpi"], plan.get("settings")) as st:
        o = w.obj("o")
        for n_an, an in enumerate(plan["anims"]):
            events = [dict(e) for e in plan["noise"]] if n_an == 0 else []

            def on_frame(k):
                for e in events:
                    if e["frame"] == k:
                        act(res, st, e, user, o, scratch, w)

            st.reset(on_frame=on_frame)
            before = plt.get_fignums()
            animate(st, o, an, scratch)
            res.sim_time += an["kw"]["lambda1"] - an["kw"]["lambda0"]
            res.steps += len(st.shots)
            p = st.procs[0] if st.procs else None
            judge(res, an, st.shots, st.procs, o_ref, rw.uni, a, "animation %d" % n_an)
            if p is not None and not res.violations and (not p.waited or p.returncode != 0 or p.frames() != len(st.shots)):
                res.bad("encoder", "the encoder got %.3f frames, was waited for: %s, ended with %s" % (p.frames(), p.waited, p.returncode))
            msg = user.disturbed()
            if msg:
                res.bad("other figures", msg)
            res.nontrivial = res.nontrivial or len(st.shots) >= 3
            kw = an["kw"]
            res.state(plan["orbit"]["k"], kw["speed"], kw.get("tail_length", 5) < kw["lambda1"] - kw["lambda0"], sorted(an["fns"]), bool(kw.get("plot_components")), bool(kw.get("background_color")), sorted({e["what"] for e in plan["noise"]}))
            if res.violations:
                break
    res.faults["frame really rendered"] += res.steps if plan["real_draw"] else 0
    res.sample = {"orbit": plan["orbit"], "animation": plan["anims"][0]}
    return res
