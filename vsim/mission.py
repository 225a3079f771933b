"""Simulated missions: a client follows an orbit, checkpoints it to a disk, crashes and restarts.

One mission is one client process (a universe) that logs an orbit's coordinates leg by leg and
saves checkpoints to a simulated disk.  Crashes lose the process (every library object and
everything the library remembers); a restart reads the newest intact checkpoint and rebuilds the
orbit from nothing else.  The disk tears, loses, duplicates and refuses writes.
"""
from . import ops, ref, restart
from .universe import Universe
import json
import zlib

import numpy as np

C_LIGHT, G_N, MSUN = 299792458.0, 6.67408e-11, 1.98847e30
DIST = {"natural": lambda M: 1.0, "mks": lambda M: G_N * M * MSUN / C_LIGHT**2, "cgs": lambda M: 100 * G_N * M * MSUN / C_LIGHT**2, "km": lambda M: G_N * M * MSUN / C_LIGHT**2 / 1e3, "au": lambda M: G_N * M * MSUN / C_LIGHT**2 / 1.496e11}
TIME = {"natural": lambda M: 1.0, "mks": lambda M: G_N * M * MSUN / C_LIGHT**3, "cgs": lambda M: G_N * M * MSUN / C_LIGHT**3, "days": lambda M: G_N * M * MSUN / C_LIGHT**3 / 86400}
FREQS = ("upsilon_r", "upsilon_theta", "upsilon_phi", "gamma", "omega_r", "omega_theta", "omega_phi")


class Disk:
    """Durable storage of the simulated client: numbered checkpoint files."""

    def __init__(self):
        self.files = []  # byte strings in write order

    def write(self, rec, fault):
        text = json.dumps(rec).encode()
        data = b"%08x" % zlib.crc32(text) + text
        if fault == "full":
            return False  # ENOSPC: nothing is written, the client knows
        if fault == "lost":
            return True  # acknowledged, gone after the crash
        if fault == "torn":
            data = data[: len(data) * 2 // 3]
        self.files.append(data)
        if fault == "duplicate":
            self.files.append(data)
        return True

    def newest(self, stale=0):
        found = []
        for d in reversed(self.files):
            try:
                if int(d[:8], 16) == zlib.crc32(d[8:]):
                    found.append(json.loads(d[8:]))
            except ValueError:
                pass
            if len(found) > stale:
                break
        return found[-1]


# ---------------------------------------------------------------- plans


def gen_start_bound(rng):
    k = rng.random()
    pool = ops.PARAMS["bound"]
    if k < 0.12:
        pool = [b for b in pool if b[2] == 0]
    elif k < 0.24:
        pool = [b for b in pool if abs(b[3]) == 1]
    elif k < 0.32:
        pool = [b for b in pool if b[0] == 0]
    elif k < 0.37:
        pool = [b for b in pool if b[0] == 0 and b[3] < 0]
    elif k < 0.42:
        pool = [b for b in pool if b[4] < 0.1]
    a, p, e, x, margin = rng.choice(pool)
    kw = ops.gen_kw(rng)
    if rng.random() < 0.5 and margin > 1e-2:  # numbers that need all their digits
        p *= 1 + 1e-4 * rng.random()
        e *= 1 - 1e-4 * rng.random()
        if abs(x) < 1:
            x *= 1 + 1e-4 * rng.random() * (1 if x > 0 else -1)
            x = max(-1.0, min(1.0, x))
    elif rng.random() < 0.14 and a > 0 and abs(x) > 0.05:  # just outside the separatrix
        a, e = min(a, 0.98), max(min(e, 0.9), 0.05)
        p = ref.separatrix(a, e, x) + 10 ** rng.uniform(-2.7, -1)
    if rng.random() < 0.06 and p < 60:  # nearly, but not quite, circular
        e2 = ops.r6(10 ** rng.uniform(-4.5, -1.7))
        if margin > 0.3:
            e = e2
    if rng.random() < 0.06 and margin > 0.3 and a < 0.5 and p - 6 - 2 * e > 0.5:  # hardly rotating
        a = ops.r6(10 ** rng.uniform(-7.5, -1))
    if rng.random() < 0.05 and margin > 0.3 and abs(x) > 0.2:  # nearly, but not quite, equatorial
        x = float(np.sign(x)) * (1 - 10 ** rng.uniform(-15, -3))
        p += 4
    k = rng.random()
    if k < 0.65:
        if a > 0 and rng.random() < 0.15:
            a, x = -a, -x
        return {"k": "stable", "args": [a, p, e, x], "kw": kw}
    C = ref.constants(a, p, e, x)
    if k < 0.75 and e > 0.01:
        return {"k": "from_constants", "args": [a] + list(C), "kw": kw}
    kw.pop("initial_phases", None)
    return {"k": "orbit", "args": [a] + gen_state(rng, a, C, p / (1 - e), p / (1 + e)), "kw": kw}


def gen_state(rng, a, C, ra, rp):
    """A state on the geodesic: anywhere, or exactly at a turning point / the equator."""
    k = rng.random()
    r = rp + (ra - rp) * (rng.random() if k < 0.7 else rng.choice([0, 1]))
    z = np.sqrt(ref.zminus(a, *C)) if C[2] > 0 else 0.0
    k = rng.random()
    th = np.arccos(z * (rng.uniform(-1, 1) if k < 0.6 else rng.choice([0, 0, 1, -1])))
    if C[2] == 0:
        th = np.pi / 2
    x, u = ref.state(a, *C, float(r), float(th), rng.choice([-1, 1]), rng.choice([-1, 1]), rng.choice([0.0, 0, 5.5, -3.25]), rng.choice([0.0, ops.r6(rng.uniform(-7, 7))]))
    if C[2] == 0:
        u[2] = 0.0
    return [x, u]


def gen_start_plunge(rng):
    fam = rng.choice(["complex", "complex", "complex", "real_in", "real_out", "equatorial"])
    a, E, L, Q = rng.choice(ops.PARAMS[fam])
    kw = ops.gen_kw(rng)
    if fam == "complex" and rng.random() < 0.1:  # hardly rotating
        small = ops.r6(10 ** rng.uniform(-6, -1))
        rr = ref.real_roots(small, E, L, Q)
        if len(rr) == 2 and rr[1] > 2.2:
            a = small
    if rng.random() < 0.7:
        return {"k": "plunge", "args": [a, E, L, Q], "kw": kw}
    kw.pop("initial_phases", None)
    rr = ref.real_roots(a, E, L, Q)
    rm = 1 - np.sqrt(1 - a * a)
    lo, hi = (rr[0], rr[1]) if len(rr) == 2 or rr[1] > rm else (rr[2], rr[3])
    rp = 1 + np.sqrt(1 - a * a)
    lo = max(lo, 0.02)
    for _ in range(50):
        k = rng.random()
        r = rng.uniform(lo, hi) if k < 0.85 else hi
        if abs(r - rp) > 0.03 and abs(r - rm) > 0.03:
            break
    z = np.sqrt(ref.zminus(a, E, L, Q)) if Q > 0 else 0.0
    th = np.arccos(z * (rng.uniform(-1, 1) if rng.random() < 0.7 else rng.choice([0, 1, -1]))) if Q > 0 else np.pi / 2
    x, u = ref.state(a, E, L, Q, float(r), float(th), rng.choice([-1, 1]), rng.choice([-1, 1]), rng.choice([0.0, 2.5]), ops.r6(rng.uniform(-3, 3)))
    if Q == 0:
        u[2] = 0.0
    return {"k": "orbit", "args": [a, x, u], "kw": kw}


def gen_legs(rng, n, has_M, bound):
    legs = []
    for _ in range(n):
        k = rng.random()
        if k < 0.5:
            go = {"dl": ops.r6(rng.uniform(-6, 9))}
        elif k < 0.55:
            go = {"dl": rng.choice([0, 0.0, 1e-9, 1e-5, 1e-3, 40.0])}
        elif k < 0.7:
            go = {"turn": "r", "k": rng.randrange(-3, 5)}
        elif k < 0.8:
            go = {"turn": "th", "k": rng.randrange(-3, 5)}
        elif k < 0.9:
            go = {"turn": "eq", "k": rng.randrange(-3, 5)}
        else:  # just next to a turning point: on either side of its tolerance
            go = {"turn": rng.choice(["r", "th"]), "k": rng.randrange(-2, 3), "off": rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -1.3)}
        log = {"at": [ops.r6(rng.uniform(-6, 8)) for _ in range(rng.choice([1, 2, 4]))]}
        if has_M and rng.random() < 0.4:
            log["du"] = rng.choice(["natural", "mks", "cgs", "km", "au"])
            log["tu"] = rng.choice(["natural", "mks", "cgs", "days"])
        form = rng.choice(["state", "state", "state", "constants", "params"] if bound else ["state", "state", "state", "constants"])
        rot = None
        if form == "state" and rng.random() < 0.15:
            rot = rng.choice([{"scale": ops.r6(1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-4.5, -0.5))}, {"digits": rng.randrange(2, 6)}, {"zero": rng.randrange(4)}, {"flip": rng.choice([0, 3])}, {"swap": True}, {"lost": rng.randrange(8), "as": rng.choice(["nan", "nan", "inf", "-inf"])}])
        legs.append({"rot": rot, "go": go, "log": log, "form": form, "disk": rng.choice([None] * 7 + ["torn", "lost", "duplicate", "full"]), "crash": rng.choice(["new", "new", "new", "same", None]), "stale": int(rng.random() < 0.08), "seq": rng.choice(["tuple", "list", "array"])})
    return legs


def lists(plan):
    return [("legs",)] + [("legs", i, "log", "at") for i in range(len(plan["legs"]))]


def simplify(plan):
    for i, leg in enumerate(plan["legs"]):
        for k, v in (("disk", None), ("stale", 0), ("crash", "new"), ("seq", "tuple"), ("rot", None)):
            if leg.get(k, v) != v:
                yield dict(plan, legs=plan["legs"][:i] + [dict(leg, **{k: v})] + plan["legs"][i + 1 :])
        if "du" in leg["log"]:
            yield dict(plan, legs=plan["legs"][:i] + [dict(leg, log={"at": leg["log"]["at"]})] + plan["legs"][i + 1 :])


# ---------------------------------------------------------------- running


class Stop(Exception):
    pass


class Mission:
    MARGIN = 25.0

    def __init__(self, plan, res, bound, judge_path=True, ode=True):
        self.plan, self.res, self.bound = plan, res, bound
        self.judge_path, self.ode = judge_path, ode
        self.defs = {"start": plan["start"]}
        s = plan["start"]
        self.a = abs(s["args"][0])
        if s["k"] == "stable":
            x = s["args"][3] if s["args"][0] >= 0 else -s["args"][3]
            self.C = ref.constants(self.a, s["args"][1], s["args"][2], x)
        elif s["k"] in ("from_constants", "plunge"):
            self.C = tuple(s["args"][1:])
        else:
            E, L, Q, _, _ = ref.covariant(self.a, *s["args"][1:])
            self.C = (E, L, Q)
            if abs(Q) < 1e-13:
                self.C = (E, L, 0.0)
        self.M, self.mu = s["kw"].get("M"), s["kw"].get("mu")
        ref_uni = ops.World(self.defs)
        with ref_uni.uni:
            self.U = ref_uni.obj("start")
            self.ufn = self.U.trajectory()
            self.uvel = self.U.four_velocity()
        self.ref_uni = ref_uni
        self.w = ops.World(self.defs)
        with self.w.uni:
            self.o = self.w.obj("start")
        self.base = 0.0  # Mino time of the uninterrupted orbit at which the live orbit has lambda 0
        self.disk = Disk()
        self.disk.write({"lam": 0.0, "form": "start", "noise": [0, 0, 0, 0]}, None)
        self.noise = []  # one Noise per restart from a state since the start
        self.anchor = [0.0]
        self.restarts = 0
        self.max_drift = 0.0
        if self.bound:
            with self.ref_uni.uni:
                ls = np.linspace(0, 2 * np.pi / self.U.upsilon_r * 3, 200)
                self.freqs = (float(self.U.upsilon_r), abs(float(self.U.upsilon_theta)))
                self.rt = restart.rates(self.a, self.C, self.ufn[1](ls), self.ufn[2](ls))
        self.scale = np.array([1.0, 1.0, 1.0, 1.0])
        # E, L, Q of (a, p, e, x) lose at most (0.5, 0.9 p, 0.8 p) eps / e to cancellation when e
        # is tiny (measured against 50-digit arithmetic)
        self.extra = (0.0, 0.0, 0.0)
        if self.bound:
            e = abs(float(self.U.e))
            k = 4.4e-16 / e if e > 1e-5 else 0
            self.extra = (k, k * self.U.p, k * self.U.p) if k else (1e-8, 1e-8, 1e-8)
        if s["k"] == "orbit":  # the start itself was rebuilt from a state
            self.start_noise = self.make_noise(*s["args"][1:])
        else:
            self.start_noise = self.make_noise()

    # -- expectations
    def make_noise(self, x=None, u=None):
        return (restart.Noise if self.bound else restart.PlungeNoise)(self.a, self.C, x, u, self.extra)

    def expect(self, glob):
        """(t, r, theta, phi) of the uninterrupted orbit at global Mino times."""
        with self.ref_uni.uni:
            return np.array([f(glob) for f in self.ufn])

    def tolerance(self, glob, want, noises):
        """glob: global Mino times; noises: [(noise, global time at which it entered)]."""
        out = np.zeros((4, len(glob)))
        for n, at in noises:
            if self.bound:
                out += np.array([n.tol(l - at, self.rt) for l in glob]).T
            else:
                out += n.tol(glob - at, want[1], want[2])
        floor = np.full_like(out, 2e-7)
        if not self.bound:
            D = np.abs(want[1] ** 2 - 2 * want[1] + self.a**2)
            floor[[0, 3]] /= np.minimum(D, 1.0) + 1e-12
        else:
            floor *= 1 + self.rt[0][:, None] * (1 + np.abs(glob)) * 1e-3
            # arcsin(sin(psi)) in the elliptic integrals: psi to sqrt(eps) next to a turning point
            floor += 4e-8 * self.rt[0][:, None] / min(self.freqs)
        return self.MARGIN * out + floor * (1 + len(noises))

    def path_noise(self):
        return [(self.start_noise, 0.0)] + self.noise

    def advance(self, go):
        o = self.o
        if "dl" in go:
            return float(go["dl"])
        ph = [float(v) for v in o.initial_phases]
        with self.w.uni:
            if go["turn"] == "r":
                lam = (go["k"] * np.pi - ph[1]) / float(o.upsilon_r)
            else:
                q = go["k"] * np.pi + (np.pi / 2 if go["turn"] == "eq" else 0.0)
                lam = (q - ph[2]) / abs(float(o.upsilon_theta))
        return float(lam) + go.get("off", 0.0)

    def const_noise(self):
        """Uncertainty of E, L, Q after the restarts so far."""
        d = np.zeros(3)
        for n, _ in self.path_noise():
            d += n.d
            if self.bound:  # a circular orbit comes back with two roots split by rounding
                r1, r2, r3, _ = n.z
                s = (n.dz[0] + n.dz[1]) / r1
                d += s * s * r1 / max(r2 - r3, 1e-3) * np.abs([1.0, self.C[1], self.C[2]])
        return d

    # -- one leg
    def read_state(self, lam):
        with self.w.uni:
            T, V = self.o.trajectory(), self.o.four_velocity()
            return [float(f(lam)) for f in T], [float(f(lam)) for f in V]

    def log_leg(self, i, leg, lam0):
        lg = leg["log"]
        if not lg["at"]:
            return
        lams = np.array(lg["at"], float) + lam0
        du, tu = lg.get("du", "natural"), lg.get("tu", "natural")
        with self.w.uni:
            if lg.get("du"):
                fs = self.o.trajectory(distance_units=du, time_units=tu)
            else:
                fs = self.o.trajectory()
            got = np.array([[float(f(l)) for l in lams] for f in fs])
        glob = lams + self.base
        want = self.expect(glob)
        tol = self.tolerance(glob, want, self.path_noise())
        if du != "natural" or tu != "natural":
            k = np.array([TIME[tu](self.M), DIST[du](self.M), 1, 1])
            got = got / k[:, None]
            tol = tol + 1e-3 * np.abs(want) * (k[:, None] != 1)
            with self.ref_uni.uni:
                same = np.array([f(glob) for f in self.U.trajectory(distance_units=du, time_units=tu)])
            self.compare(i, "in %s/%s" % (du, tu), got, same / k[:, None], self.tolerance(glob, want, self.path_noise()), glob, "path")
        self.compare(i, "", got, want, tol, glob, "path")

    def compare(self, i, note, got, want, tol, glob, klass):
        if not self.bound:  # at a horizon itself the coordinates are not defined
            ok = np.abs(want[1] ** 2 - 2 * want[1] + self.a**2) > 1e-3
            ok &= want[1] > 0.02
            got, want, tol, glob = got[:, ok], want[:, ok], tol[:, ok], glob[ok]
            if not got.size:
                return
        usable = tol < 0.05 * np.array([1, max(1.0, np.ptp(want[1])), 1, 1])[:, None] * np.array([np.maximum(1, np.abs(want[0]) * 0.01), np.ones(len(glob)), np.ones(len(glob)), np.ones(len(glob))])
        err = np.abs(got - want)
        bad = ~(err <= tol) & usable
        self.res.counts["coordinates compared"] += int(usable.sum())
        self.res.counts["coordinates too ill-conditioned to compare"] += int((~usable).sum())
        if bad.any():
            k = np.unravel_index(np.argmax(np.where(bad, np.where(np.isnan(err), np.inf, err / tol), -1)), bad.shape)
            self.fail(klass, i, "%s %s at Mino time %.9g is %.12g, %s %.12g (off by %.3g, allowed %.3g)" % ("t r theta phi".split()[k[0]], note, glob[k[1]], got[k], "the uninterrupted orbit has" if klass == "path" else "step-by-step integration gives", want[k], err[k], tol[k]))

    def fail(self, klass, i, msg):
        self.res.bad(klass, "leg %d, %d restart(s): %s" % (i, self.restarts, msg))
        raise Stop

    def checkpoint(self, i, leg, lam):
        o = self.o
        x, u = self.read_state(lam)
        rec = {"lam": self.base + lam, "form": leg["form"], "x": x, "u": u, "a": float(o.a)}
        ph = [float(v) for v in o.initial_phases]
        rec["phases"] = [x[0], ph[1] + float(o.upsilon_r) * lam, ph[2] + abs(float(o.upsilon_theta)) * lam, x[3]]
        rec["consts"] = [float(o.E), float(o.L), float(o.Q)]
        if self.bound:
            rec["params"] = [float(o.a), float(o.p), float(o.e), float(o.x)]
        rec["path"] = len(self.noise)
        if leg["disk"]:
            self.res.faults["checkpoint write: " + leg["disk"]] += 1
        self.disk.write(rec, leg["disk"])
        return x, u

    def rebuild(self, i, leg):
        rec = self.disk.newest(leg["stale"])
        if leg["stale"]:
            self.res.faults["restart from a stale checkpoint"] += 1
        if leg["crash"] == "new":
            self.w = ops.World(self.defs)
            self.res.faults["process crash and restart"] += 1
        else:
            self.res.faults["orbit lost, same process"] += 1
        self.restarts += 1
        kw = {}
        if self.M is not None:
            kw["M"] = self.M
        if self.mu is not None:
            kw["mu"] = self.mu
        seq = {"tuple": tuple, "list": list, "array": np.array}[leg["seq"]]
        form = rec["form"]
        old = self.noise[: rec.get("path", 0)]
        with self.w.uni:
            if form == "start":
                self.w.objs.clear()
                self.o, self.base, self.noise = self.w.obj("start"), 0.0, []
                return rec
            if form == "state" and leg.get("rot"):
                self.damaged(i, rec, leg["rot"], seq, kw)
            try:
                if form == "state":
                    o = self.w.cls("orbit")(rec["a"], seq(rec["x"]), seq(rec["u"]), **kw)
                elif form == "constants":
                    o = self.w.cls("from_constants" if self.bound else "plunge")(rec["a"], *rec["consts"], initial_phases=seq(rec["phases"]), **kw)
                else:
                    o = self.w.cls("stable")(*rec["params"], initial_phases=seq(rec["phases"]), **kw)
            except ValueError as e:
                if not self.bound and form == "state":
                    _, _, _, norm, scale = ref.covariant(rec["a"], rec["x"], rec["u"])
                    if not (abs(norm + 1) + 1e-15 * scale <= 1e-7):
                        self.res.counts["unnormalised states refused"] += 1
                        return self.fall_back(rec, kw)
                self.fail("refused", i, "the state saved at Mino time %.9g (%s) is refused: %s; x=%r u=%r" % (rec["lam"], form, e, rec["x"], rec["u"]))
            except Exception as e:
                self.fail("refused", i, "rebuilding from the %s saved at Mino time %.9g fails with %r; saved %r" % (form, rec["lam"], e, {k: rec.get(k) for k in ("x", "u", "consts", "params", "phases")}))
        nz = self.make_noise(rec["x"], rec["u"]) if form == "state" else self.make_noise()
        self.noise = old + [(nz, rec["lam"])]
        self.o, self.base = o, rec["lam"]
        self.check_restored(i, rec, nz)
        return rec

    def damaged(self, i, rec, rot, seq, kw):
        """The record was damaged: it is refused, or followed as the motion it now describes."""
        a, x, u = rec["a"], list(rec["x"]), list(rec["u"])
        if "lost" in rot:
            (x if rot["lost"] > 3 else u)[rot["lost"] % 4] = float(rot["as"])
            self.res.faults["damaged checkpoint: lost number"] += 1
            try:
                self.w.cls("orbit")(a, seq(x), seq(u), **kw)
            except Exception:
                self.res.counts["damaged states refused"] += 1
                return
            self.fail("damaged", i, "a state that is not a finite number is resumed: x=%r u=%r" % (x, u))
        if "scale" in rot:
            u = [v * rot["scale"] for v in u]
        elif "digits" in rot:
            x = x[:1] + [float("%.*g" % (rot["digits"], v)) for v in x[1:]]
            u = [float("%.*g" % (rot["digits"], v)) for v in u]
        elif "zero" in rot:
            u[rot["zero"]] = 0.0
        elif "flip" in rot:
            u[rot["flip"]] = -u[rot["flip"]]
        else:
            u[1], u[3] = u[3], u[1]
        if not 0 < x[2] < 3.14159:
            return
        if self.bound and abs(x[1] ** 2 - 2 * x[1] + a * a) < 0.05:
            return
        E, L, Q, norm, scale = ref.covariant(a, x, u)
        off, rounding = abs(norm + 1), 1e-12 * (1 + scale)
        self.res.faults["damaged checkpoint: " + next(iter(rot))] += 1
        try:
            o = self.w.cls("orbit")(a, seq(x), seq(u), **kw)
        except ValueError:
            self.res.counts["damaged states refused"] += 1
            return
        except Exception as e:
            if off > 2e-6 + rounding:
                self.fail("damaged", i, "a damaged state of norm %.9g gets %r instead of being refused: x=%r u=%r" % (norm, e, x, u))
            return
        self.res.counts["damaged states accepted"] += 1
        if not off <= 2e-6 + rounding:
            self.fail("damaged", i, "a damaged state of norm %.9g is resumed: x=%r u=%r" % (norm, x, u))

    def fall_back(self, rec, kw):
        """The state was refused: the client restores the same instant from constants and phases."""
        with self.w.uni:
            self.o = self.w.cls("plunge")(rec["a"], *rec["consts"], initial_phases=tuple(rec["phases"]), **kw)
        self.base = rec["lam"]
        self.noise = self.noise[: rec.get("path", 0)] + [(self.make_noise(), rec["lam"])]
        return dict(rec, form="constants")

    # -- what the restored orbit says about itself
    def check_restored(self, i, rec, nz):
        o, m = self.o, self.MARGIN
        self.res.counts["restored orbits compared"] += 1
        self.res.state("restart", self.family(), rec["form"], self.where(rec))
        if bool(o.stable) is not self.bound:
            self.fail("class", i, "restored as a %s orbit: saved x=%r u=%r" % ("bound" if o.stable else "plunging", rec["x"], rec["u"]))
        n = len(self.noise) + 1
        d = self.const_noise()
        for name, v, c, dv in zip("ELQ", (o.E, o.L, o.Q), self.C, d):
            tol = 200 * dv + 1e-10 * n * max(1, abs(c))
            if not abs(float(v) - c) <= tol:
                self.fail("constants", i, "restored %s is %.15g, the run started with %.15g (allowed %.2g)" % (name, v, c, tol))
        if self.M is not None and o.M != self.M or self.mu is not None and o.mu != self.mu:
            self.fail("masses", i, "restored masses %r %r" % (o.M, o.mu))
        rel = sum(v[0].rel for v in self.path_noise())
        if self.bound:
            U = self.U
            dz = sum(v[0].dz[0] + v[0].dz[1] for v in self.path_noise())
            wid = max(float(U.p) / (1 - U.e * U.e), 1.0)
            for name, tol in (("p", m * dz + 1e-10 * n * wid), ("e", m * dz / wid * 4 + 1e-10 * n), ("x", m * np.sqrt(sum(v[0].dzm for v in self.path_noise())) * 1.0 if abs(U.x) > 0.999 else m * sum(v[0].dzm for v in self.path_noise()) / abs(U.x) + 1e-10 * n)):
                if not abs(float(getattr(o, name)) - float(getattr(U, name))) <= tol + 1e-12:
                    self.fail("parameters", i, "restored %s is %.15g, was %.15g (allowed %.2g)" % (name, getattr(o, name), getattr(U, name), tol))
            names = FREQS
        else:
            names = FREQS[:2]
        for name in names:
            g, w = float(getattr(o, name)), float(getattr(self.U, name))
            tol = m * rel * 4 + 1e-9 * n
            if self.bound and abs(self.U.x) > 0.9999 and "theta" in name:
                tol += m * sum(v[0].dzm for v in self.path_noise())
            if tol < 0.1 and not abs(abs(g) - abs(w)) <= tol * max(abs(w), 1e-3):
                self.fail("frequencies", i, "restored %s is %.15g, was %.15g" % (name, g, w))
        if rec["form"] in ("constants", "params"):
            return
        if not np.allclose(np.array(o.initial_position, float), rec["x"], rtol=1e-12, atol=1e-12) or not np.allclose(np.array(o.initial_velocity, float), rec["u"], rtol=1e-12, atol=1e-12):
            self.fail("initial state", i, "restored initial state %r %r, saved %r %r" % (o.initial_position, o.initial_velocity, rec["x"], rec["u"]))

    def family(self):
        if self.bound:
            U = self.U
            return ("bound", U.a == 0, U.e < 1e-6, abs(U.x) > 1 - 1e-12, U.L > 0)
        z = ref.roots(self.a, *self.C)
        cplx = bool(np.any(np.abs(z.imag) > 1e-9))
        return ("plunge", cplx, self.C[2] == 0, self.C[1] > 0)

    def where(self, rec):
        x, u = rec["x"], rec["u"]
        rp, rm = 1 + np.sqrt(1 - self.a**2), 1 - np.sqrt(1 - self.a**2)
        zone = 0 if x[1] > rp else 1 if x[1] > rm else 2
        U = self.ufn
        return (zone, u[1] > 0, u[2] > 0, x[2] > np.pi / 2, abs(u[1]) < 1e-6, abs(u[2]) < 1e-6, abs(x[2] - np.pi / 2) < 1e-9)

    # -- oracles over a leg
    def check_ode(self, i, rec, span):
        """Step-by-step integration from what was saved, against the restored orbit."""
        nz = self.noise[-1][0] if self.noise else self.start_noise
        if nz.rel > 1e-8 or not self.ode:
            return
        a, C = self.a, self.C
        x, u = rec["x"], rec["u"]
        # the integration starts from the saved position and velocity, whatever was restored
        if self.bound:
            nz = self.make_noise(x, u)
            S = x[1] ** 2 + a * a * np.cos(x[2]) ** 2
            lams = np.array(sorted(span))
            parts = [ref.integrate(a, C, x, S * u[1], S * u[2], p) for p in (lams[lams < 0], lams[lams >= 0]) if len(p)]
            if any(y is None for y in parts):
                return
            want = np.hstack(parts)[:4]
            with self.w.uni:
                got = np.array([f(lams) for f in self.o.trajectory()])
            # how far the answer moves when the start does: a nearly marginal orbit is not predictable
            y1 = [ref.integrate(a, C, [x[0], x[1] * (1 + 1e-8), x[2], x[3]], S * u[1] + 1e-8, S * u[2], p) for p in (lams[lams < 0], lams[lams >= 0]) if len(p)]
            if any(y is None for y in y1):
                return
            move = np.abs(np.hstack(y1)[:4] - want)
            tol = self.tolerance(rec["lam"] + lams, want, self.path_noise() + [(nz, rec["lam"])]) * 2 + 2 * move + 3e-6 * (1 + self.rt[0][:, None] * 1e-2)
            self.res.counts["step-by-step integrations"] += 1
            self.compare(i, "", got, want, tol, rec["lam"] + lams, "integration")
            return
        S = x[1] ** 2 + a * a * np.cos(x[2]) ** 2
        D0 = x[1] ** 2 - 2 * x[1] + a * a
        if abs(D0) < 0.02 or x[1] < 0.1:
            return
        nz = self.make_noise(x, u)
        lams = np.array(sorted(span, key=abs))
        fwd = []
        for sgn in (1, -1):
            part = lams[lams * sgn > 0]
            if not len(part):
                continue
            y = ref.integrate(a, C, x, S * u[1], S * u[2], part, rth_only=True)
            if y is None or y[0].min() < 0.03:
                continue
            with self.w.uni:
                fs = self.o.trajectory()
                got = np.array([f(part) for f in fs])
            want = np.vstack([got[0], y[0], y[1], got[3]])
            tol = self.tolerance(rec["lam"] + part, want, self.path_noise() + [(nz, rec["lam"])]) * 2 + 3e-6
            self.res.counts["step-by-step integrations"] += 1
            self.compare(i, "", got, want, tol, rec["lam"] + part, "integration")
            # t and phi: only up to the first horizon
            full = self.until_horizon(a, C, x, S * u[1], S * u[2], sgn * min(2.0, abs(part).max()))
            if full is not None:
                ls, y = full
                with self.w.uni:
                    got = np.array([f(ls) for f in fs])
                tol = self.tolerance(rec["lam"] + ls, y, self.path_noise() + [(nz, rec["lam"])]) * 4 + 3e-5 / min(1, abs(D0))
                self.compare(i, "", got, y, tol, rec["lam"] + ls, "integration")

    @staticmethod
    def until_horizon(a, C, x, rd, td, end):
        from scipy.integrate import solve_ivp

        if end == 0:
            return None

        def hor(l, y):
            return (y[1] - 1) ** 2 - (1 - a * a) - np.sign((x[1] - 1) ** 2 - (1 - a * a)) * 0.02

        hor.terminal = True

        def ring(l, y):
            return y[1] - 0.05

        ring.terminal = True
        if hor(0, [0, x[1]]) == 0:
            return None
        sol = solve_ivp(ref.rhs(a, *C), (0, end), [x[0], x[1], x[2], x[3], rd, td], method="DOP853", rtol=1e-11, atol=1e-11, events=(hor, ring))
        stop = sol.t[-1] * 0.999
        if abs(stop) < 1e-6:
            return None
        ls = stop * np.array([0.3, 0.7, 1.0])
        y = ref.integrate(a, C, x, rd, td, ls)
        return None if y is None else (ls, y[:4])

    def check_deltas(self, i, rec):
        """The oscillating parts of t and phi of the restored orbit, phase by phase."""
        with self.ref_uni.uni:
            dU = self.U.trajectory_deltas()
            ur, uth = float(self.U.upsilon_r), abs(float(self.U.upsilon_theta))
        with self.w.uni:
            dO = self.o.trajectory_deltas()
        lam = self.base
        q = np.array([0.4, 1.3, 2.9, -0.8, 5.1])
        nz = self.path_noise()
        for k, name in enumerate(("t_r", "t_theta", "phi_r", "phi_theta")):
            s = ur * lam if k in (0, 2) else uth * lam
            with self.ref_uni.uni:
                want = dU[k](q + s) - dU[k](np.float64(s))
            with self.w.uni:
                got = dO[k](q) - dO[k](np.float64(0.0))
            # the phase uncertainty times the slope
            with self.ref_uni.uni:
                slope = np.abs(dU[k](q + s + 1e-4) - dU[k](q + s - 1e-4)) / 2e-4 + abs(dU[k](s + 1e-4) - dU[k](s - 1e-4)) / 2e-4
            dt = 4e-8 * self.rt[0][0 if k < 2 else 3] / min(self.freqs) if self.bound else 0.0
            if self.bound and k in (0, 2):
                # a circular orbit comes back with two roots split by rounding: it then wobbles
                wob = sum(v.dz[0] + v.dz[1] for v, _ in nz)
                dt += wob * self.rt[0][0 if k == 0 else 3] / ur / max(self.U.p / (1 + self.U.e), 1)
            elif self.bound:
                dt += sum(v.dzm for v, _ in nz) * (self.a**2 + abs(self.C[1])) / uth
            dq = sum((min(v.dq_r, np.pi) if k in (0, 2) else min(v.dq_th, np.pi)) + abs(v.rel * (lam - at)) * 10 for v, at in nz)
            tol = self.MARGIN * (slope * dq + dt + np.abs(want) * sum(v.rel for v, _ in nz)) + 1e-6 * (1 + slope) + 1e-6 * np.abs(want)
            ok = np.isfinite(want) & np.isfinite(slope) & (tol < 0.05 * (1 + np.abs(want)))
            if not self.bound and k in (0, 2):
                with self.ref_uni.uni:
                    for l in (lam + q / ur, np.full(1, lam)):
                        r = self.ufn[1](l)
                        ok &= (np.abs(r * r - 2 * r + self.a**2) > 0.02) & (r > 0.05)
            self.res.counts["delta values compared"] += int(ok.sum())
            bad = ok & ~(np.abs(got - want) <= tol)
            if bad.any():
                j = int(np.argmax(bad))
                self.fail("deltas", i, "restored trajectory delta %s changes by %.12g over phase %.3g, on the uninterrupted orbit by %.12g" % (name, got[j], q[j], want[j]))
        if self.bound:
            with self.w.uni:
                T = self.o.trajectory()
                l = q / ur
                g = float(self.o.gamma), float(self.o.upsilon_phi)
                for j, (f, rate) in enumerate(zip((T[0], T[3]), g)):
                    got = f(l) - f(0.0)
                    osc = sum(dO[c](s * l) - dO[c](0.0) for c, s in ((2 * j, float(self.o.upsilon_r)), (2 * j + 1, abs(float(self.o.upsilon_theta)))))
                    want = rate * l + osc
                    if not np.all(np.abs(got - want) <= 1e-6 * (1 + np.abs(want))):
                        self.fail("deltas", i, "%s is not its average rate plus the trajectory deltas: %r against %r" % ("t phi".split()[j], got, want))

    def check_state(self, i, lam):
        """C06: unit norm, and the constants the run started with, from position and velocity alone."""
        x, u = self.read_state(lam)
        a = self.a
        r, th = x[1], x[2]
        D = abs(r * r - 2 * r + a * a)
        if not self.bound and (D < 0.01 or r < 0.05):
            return
        E, L, Q, norm, scale = ref.covariant(a, x, u)
        n = len(self.noise) + 1
        s2 = np.sin(th) ** 2
        noise = 4e-14 * n * (1 + r * r / D) * (1 + 1 / s2)
        if not self.bound:
            # the Boyer-Lindquist radius itself is known to about 1e-13 of the widest root
            noise *= 20 * (1 + max(abs(self.start_noise.z)) / r)
        noise += sum(v[0].rel for v in self.path_noise()) * (0 if self.bound else 1)
        if self.bound:
            noise += sum(v[0].dzm for v in self.path_noise()) * (L * L + Q) / (r * r) * 0.1
        self.res.counts["states measured"] += 1
        tol = noise * 100 * (1 + scale) + 1e-9
        if not (abs(norm + 1) <= tol):
            if tol < 1e-2:
                self.fail("norm", i, "at Mino time %.9g the four-velocity has norm %.12g (allowed error %.2g)" % (self.base + lam, norm, tol))
        d = self.const_noise()
        size = [1 + scale, r * (1 + scale) + abs(L), (r * r + L * L) * (1 + scale) / s2 + abs(Q)]
        for name, v, c, dv, sz in zip("ELQ", (E, L, Q), self.C, d, size):
            tol = noise * 100 * sz + 200 * dv + 1e-9 * max(1, abs(c))
            self.max_drift = max(self.max_drift, abs(v - c) / max(1, abs(c)))
            if tol < 1e-2 * max(1, abs(c)) and not abs(v - c) <= tol:
                self.fail("drift", i, "at Mino time %.9g the state has %s = %.15g, the run started with %.15g (allowed error %.2g)" % (self.base + lam, name, v, c, tol))
        if not u[0] != 0:
            self.fail("norm", i, "u^t is %r" % u[0])

    def units_match(self, i, units):
        """The constants in physical units are those of the orbit that was replaced."""
        a = ops.outcome(lambda: self._in(self.w, self.o).constants_of_motion(units))
        b = ops.outcome(lambda: self._in(self.ref_uni, self.U).constants_of_motion(units))
        if a[0] != b[0]:
            self.fail("units", i, "constants_of_motion(%r): %r after the restart, %r before" % (units, a, b))
        if a[0] == "ok":
            d = self.const_noise()
            for v, w, c, dv in zip(a[1], b[1], self.C, d):
                if abs(c) < 1e-6:
                    continue
                if not abs(v - w) <= (200 * dv / max(abs(c), 1e-9) + 1e-9 * len(self.path_noise())) * abs(w):
                    self.fail("units", i, "constants_of_motion(%r): %r after the restart, %r before" % (units, a[1], b[1]))

    @staticmethod
    def _in(w, o):
        w.uni.activate()
        return o
