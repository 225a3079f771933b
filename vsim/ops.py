"""The request language: what simulated clients ask of the library, as JSON.

A program has definitions (orbits, and function tuples requested from them) and requests.  A
World answers requests inside one universe, keeping the defined orbits and functions alive and
shared between requests.  `clean_room` answers one request alone in a throw-away universe: that
is the reference every history-, schedule- and fault-property is judged against.
"""
from . import env
from .universe import Universe
from . import ref
import collections
import copy
import json
import os

import decimal
import random
import warnings

import numpy as np
from scipy import special

with open(os.path.join(env.VERIF, "vsim", "data", "params.json")) as _f:
    PARAMS = json.load(_f)

ATTRS = (
    "a p e x E L Q M mu stable initial_phases initial_position initial_velocity upsilon_r "
    "upsilon_theta upsilon_phi gamma omega_r omega_theta omega_phi"
).split()
NAT = {"distance_units": "natural", "time_units": "natural"}


# ---------------------------------------------------------------- values


def dec_x(x):
    if isinstance(x, dict):
        if "a" in x:
            return np.array(x["a"], dtype=float)
        if "l" in x:
            return np.linspace(*x["l"][:2], int(x["l"][2]))
        if "s" in x:
            return np.float64(x["s"])
        if "z" in x:
            return np.array(x["z"], dtype=float).reshape(())
        if "bad" in x:
            return {"str": "abc", "none": None, "dict": {}, "obj": object()}[x["bad"]]
        if "m" in x:
            return np.array(x["m"], dtype=float).reshape(2, -1)
    return x


def dec_kw(kw):
    return {k: tuple(v) if isinstance(v, list) else v for k, v in kw.items()}


def freeze(v):
    """A private copy of a returned value, callables replaced by a marker."""
    if isinstance(v, (list, tuple)):
        return tuple(freeze(i) for i in v)
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: freeze(i) for k, i in v.items()}
    if callable(v):
        return "<callable>"
    return v


def same(a, b, rtol=1e-11, atol=1e-13):
    """Equality up to rounding; nan equals nan.  Returns None or a short description."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return "lengths %d and %d" % (len(a), len(b))
        for i, (p, q) in enumerate(zip(a, b)):
            d = same(p, q, rtol, atol)
            if d:
                return "[%d] %s" % (i, d)
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "keys %s" % sorted(set(a) ^ set(b))
        for k in a:
            d = same(a[k], b[k], rtol, atol)
            if d:
                return "%s: %s" % (k, d)
        return None
    if isinstance(a, (bool, str, type(None))) or isinstance(b, (bool, str, type(None))):
        if isinstance(a, np.bool_):
            a = bool(a)
        if isinstance(b, np.bool_):
            b = bool(b)
        return None if a == b and type(a) is type(b) else "%r is not %r" % (a, b)
    try:
        x, y = np.asarray(a), np.asarray(b)
    except Exception:
        return None if a == b else "%r is not %r" % (a, b)
    if x.shape != y.shape:
        return "shapes %s and %s" % (x.shape, y.shape)
    if x.dtype == object or y.dtype == object:
        return None if str(a) == str(b) else "%r is not %r" % (a, b)
    if x.size == 0:
        return None
    if x.dtype.kind not in "fiuc" or y.dtype.kind not in "fiuc":
        return None if x.dtype.kind == y.dtype.kind and np.array_equal(x, y) else "%s is not %s" % (_short(a), _short(b))
    nx, ny = np.isnan(x), np.isnan(y)
    if np.any(nx != ny):
        return "nan in one only: %s, %s" % (_short(a), _short(b))
    with np.errstate(all="ignore"):
        d = np.abs(x - y)
        eq = (x == y) | nx | (d <= atol + rtol * np.maximum(np.abs(x), np.abs(y)))
    if np.all(eq):
        return None
    i = np.unravel_index(int(np.argmax(np.where(eq, -1, d))), x.shape)
    return "%r instead of %r" % (x[i].item(), y[i].item())


def _short(v):
    s = repr(v)
    return s if len(s) < 80 else s[:77] + "..."


def outcome(fn):
    try:
        return ("ok", freeze(fn()))
    except Exception as e:
        if isinstance(e, (KeyError, NameError)) and _last_file(e) == __file__:
            raise HarnessError(repr(e)) from e
        return ("err", type(e).__name__)


class HarnessError(BaseException):
    """The simulator itself is wrong."""


def _last_file(e):
    t = e.__traceback__
    while t.tb_next is not None:
        t = t.tb_next
    return t.tb_frame.f_code.co_filename


def exact_scalar(a, b):
    """Numbers (not arrays) are equal bit for bit, nan equal to nan."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        for i, (p, q) in enumerate(zip(a, b)):
            d = exact_scalar(p, q)
            if d:
                return "[%d] %s" % (i, d)
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            d = k in b and exact_scalar(a[k], b[k])
            if d:
                return "%s: %s" % (k, d)
        return None
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        return None if a == b or (a != a and b != b) else "%r instead of %r" % (a, b)
    return None


def differ(got, want, rtol=1e-11, exact=False):
    """None if two outcomes agree."""
    if got[0] != want[0]:
        return "got %s, alone it gives %s" % (_short(got), _short(want))
    if got[0] == "err":
        return None if got[1] == want[1] else "raised %s, alone it raises %s" % (got[1], want[1])
    d = same(got[1], want[1], rtol) or (exact_scalar(got[1], want[1]) if exact else None)
    return d and "value differs from the one it gives alone: " + d


# ---------------------------------------------------------------- worlds


class World:
    """One simulated process: a universe and the orbits/functions its clients hold."""

    def __init__(self, defs, universe=None):
        self.defs = defs
        self.uni = universe or Universe()
        self.objs = {}
        self.handles = {}

    def cls(self, name):
        mod = {"stable": "stable", "from_constants": "stable", "plunge": "plunge", "orbit": "orbit", "spacetime": "spacetime"}[name]
        c = {"stable": "StableOrbit", "from_constants": "StableOrbit", "plunge": "PlungingOrbit", "orbit": "Orbit", "spacetime": "KerrSpacetime"}[name]
        c = getattr(self.uni.mod(mod), c)
        return c.from_constants if name == "from_constants" else c

    def build(self, name):
        d = self.defs[name]
        if "m" in d:
            return getattr(self.obj(d["on"]), d["m"])(**dec_kw(d.get("kw", {})))
        if "f" in d:
            return self.invoke(getattr(self.uni.mod(d["f"][0]), d["f"][1]), d["args"])
        if "via" in d:
            o = self.obj(d["via"])
            return self.obj(d["on"]).four_velocity(*o.trajectory(), (o.E, o.L, o.Q), o.upsilon_r, o.upsilon_theta, o.initial_phases)
        seq = {"list": list, "array": np.array}.get(d.get("seq"), tuple)
        args = [seq(a) if isinstance(a, list) else a for a in d["args"]]
        kw = dec_kw(d.get("kw", {}))
        if "seq" in d and "initial_phases" in kw:
            kw["initial_phases"] = seq(kw["initial_phases"])
        before = copy.deepcopy((args, kw))
        o = self.cls(d["k"])(*args, **kw)
        if "seq" in d:
            self.built(name, before, args, kw)
        return o

    def built(self, name, before, args, kw):
        """What the client does with the sequences it passed."""

    def invoke(self, f, args, kw={}):
        """Calls f with decoded arguments."""
        args = [dec_arg(a) for a in args]
        before = copy.deepcopy(args)
        out = None
        try:
            out = f(*args, **dec_kw(kw))
            return out
        finally:
            self.passed(f, before, args, out)

    def passed(self, f, before, args, out):
        """What the client does with the arguments it passed."""

    def obj(self, name):
        if name not in self.objs:
            self.objs[name] = self.build(name)
        return self.objs[name]

    handle = obj

    def attrs(self, o):
        return {n: getattr(o, n) for n in ATTRS if hasattr(o, n)}

    def answer(self, q):
        r = q["r"]
        if r == "eval":
            h = self.obj(q["h"])
            return (h if q.get("c") is None else h[q["c"]])(dec_x(q["x"]), *self.defs[q["h"]].get("extra", ()))
        if r == "attrs":
            return self.attrs(self.obj(q["o"]))
        if r == "call":
            return self.invoke(getattr(self.obj(q["o"]), q["m"]), q.get("args", []), q.get("kw", {}))
        if r == "fn":
            return self.invoke(getattr(self.uni.mod(q["f"][0]), q["f"][1]), q["args"], q.get("kw", {}))
        if r == "fneval":
            h = self.invoke(getattr(self.uni.mod(q["f"][0]), q["f"][1]), q["args"])
            return tuple(f(dec_x(q["x"])) for f in h)
        if r == "new":
            return self.attrs(self.invoke(self.cls(q["k"]), q["args"], q.get("kw", {})))
        if r == "sep":
            return self.uni.mod("constants").fast_separatrix(q["a"], q["g"])(q["e"], q["x"])
        if r == "make":
            return self.attrs(self.build(q["o"]))
        if r == "again":
            h = self.build(q["h"])
            x = dec_x(q["x"])
            return tuple(f(x) for f in h) if isinstance(h, tuple) else h(x, *self.defs[q["h"]].get("extra", ()))
        raise KeyError(r)

    def ask(self, q):
        with self.uni:
            return outcome(lambda: self.answer(q))


# ---------------------------------------------------------------- clean room


def closure(defs, q):
    """The definitions a request depends on, and the request, as one canonical string."""
    need = {}

    def add(n):
        if n in need:
            return
        need[n] = defs[n]
        for k in ("on", "via"):
            if k in defs[n]:
                add(defs[n][k])

    for k in ("o", "h"):
        if k in q:
            add(q[k])
    order = {n: "d%d" % i for i, n in enumerate(sorted(need, key=lambda n: json.dumps(need[n], sort_keys=True)))}
    d2 = {}
    for n in need:
        d = dict(need[n])
        for k in ("on", "via"):
            if k in d:
                d[k] = order[d[k]]
        d2[order[n]] = d
    q2 = dict(q)
    for k in ("o", "h"):
        if k in q2:
            q2[k] = order[q2[k]]
    return json.dumps([d2, q2], sort_keys=True)


def needed(defs, names):
    """The names and every definition they rest on."""
    used = set()
    todo = [n for n in names if n]
    while todo:
        n = todo.pop()
        if n not in used:
            used.add(n)
            todo += [defs[n][k] for k in ("on", "via") if k in defs[n]]
    return used


_clean = collections.OrderedDict()
clean_stats = {"evaluated": 0, "reused": 0}


def clean_room(defs, q):
    """The outcome of one request as the first and only request of a fresh process."""
    key = closure(defs, q)
    if key in _clean:
        _clean.move_to_end(key)
        clean_stats["reused"] += 1
        return _clean[key]
    clean_stats["evaluated"] += 1
    d, r = json.loads(key)
    with _no_ambient():
        w = World(d)
        out = w.ask(r)
    _clean[key] = out
    if len(_clean) > 20000:
        _clean.popitem(last=False)
    return out


class _no_ambient:
    """The clean room runs under the settings a fresh process has."""

    def __enter__(self):
        from . import universe as u

        self.old = np.geterr(), special.geterr(), np.random.get_state(), random.getstate(), np.get_printoptions(), decimal.getcontext().copy()
        self.warn = warnings.catch_warnings()
        self.warn.__enter__()
        warnings.simplefilter("ignore")
        np.seterr(**u._err0)
        special.seterr(all="ignore")
        np.random.seed(12345)
        random.seed(12345)
        np.set_printoptions(**u._print0)
        decimal.setcontext(decimal.Context())

    def __exit__(self, *e):
        err, sp, nr, r, po, dc = self.old
        self.warn.__exit__(*e)
        np.seterr(**err)
        special.seterr(**sp)
        np.random.set_state(nr)
        random.setstate(r)
        np.set_printoptions(**po)
        decimal.setcontext(dc)


# ---------------------------------------------------------------- generators


def r6(v):
    return float(np.round(v, 6))


def gen_phases(rng):
    k = rng.random()
    if k < 0.2:
        return [0, 0, 0, 0]
    if k < 0.3:
        return [rng.choice([0.0, -0.0, 1, 2, -1, -2]) for _ in range(4)]
    return [r6(rng.uniform(-3, 7)) for _ in range(4)]


def near_end(rng):
    """A number between -1 and 1, now and then next to an end: the cosine of a phase."""
    if rng.random() < 0.75:
        return rng.uniform(-0.9, 0.9)
    return rng.choice([-1, 1]) * (1 - 10 ** -rng.uniform(1, 6))


def twin_state(rng, args):
    """A state of almost the same motion at almost the same place."""
    a, x, u = args
    E, L, Q, _, _ = ref.covariant(a, x, u)
    v = [x[1], x[2], E, L, Q]
    i = rng.randrange(5)
    v[i] *= 1 + rng.choice([-1, 1]) * 10 ** -rng.uniform(3, 10)
    if not (v[4] > 0 and ref.R(a, *v[2:], v[0]) > 0 and ref.Theta(a, *v[2:], v[1]) > 0):
        return args
    pos, vel = ref.state(a, *v[2:], v[0], v[1], np.sign(u[1]), np.sign(u[2]), x[0], x[3])
    return [a, pos, vel]


def edge_states(rng):
    """States of nearly one motion just outside the separatrix, some of them plunging."""
    while True:
        a, _, e, x, _ = rng.choice(PARAMS["bound"][:400])
        if 0.05 < e < 0.8 and 0.05 < abs(x) < 0.99 and a > 0.01:
            break
    p = ref.separatrix(a, e, x) * (1 + 10 ** -rng.uniform(3, 7))
    E, L, Q = ref.constants(a, p, e, x)
    r = p / (1 + e * rng.uniform(-0.8, 0.8))
    z = np.sqrt(ref.zminus(a, E, L, Q))
    th = float(np.arccos(z * rng.uniform(-0.8, 0.8)))
    pos, vel = ref.state(a, E, L, Q, float(r), th, rng.choice([-1, 1]), rng.choice([-1, 1]), 0.0, 0.0)
    base = [a, pos, vel]
    out = [base] + [twin_state(rng, base) for _ in range(rng.randrange(2, 5))]
    rng.shuffle(out)
    return out


def gen_kw(rng, phases=True):
    kw = {}
    if phases and rng.random() < 0.7:
        kw["initial_phases"] = gen_phases(rng)
    if rng.random() < 0.6:
        kw["M"] = rng.choice([1, 1.0, 10, 1e6, 4.2e6, r6(rng.uniform(1, 100))])
    if rng.random() < 0.6:
        kw["mu"] = rng.choice([1, 0.5, 1e-3, 10.0, r6(rng.uniform(0.1, 30))])
    return kw


def gen_obj(rng, kinds=("stable", "plunge", "orbit", "from_constants")):
    k = rng.choice(kinds)
    if k == "stable":
        a, p, e, x, _ = rng.choice(PARAMS["bound"])
        if rng.random() < 0.15:
            a, x = -a, -x
        return {"k": k, "args": [a, p, e, x], "kw": gen_kw(rng)}
    if k == "from_constants":
        a, p, e, x, _ = rng.choice([b for b in PARAMS["bound"][:200] if b[2] > 0.01 and b[4] > 0.2])
        E, L, Q = ref.constants(a, p, e, x)
        return {"k": k, "args": [a, float("%.12g" % E), float("%.12g" % L), float("%.12g" % Q)], "kw": gen_kw(rng)}
    if k == "plunge":
        fam = rng.choice(["complex", "complex", "real_in", "real_out", "equatorial"])
        return {"k": k, "args": list(rng.choice(PARAMS[fam])), "kw": gen_kw(rng)}
    if k == "orbit":
        if rng.random() < 0.6:
            a, p, e, x, _ = rng.choice([b for b in PARAMS["bound"][:200] if b[2] > 0.01 and b[4] > 0.2])
            E, L, Q = ref.constants(a, p, e, x)
            r = p / (1 + e * near_end(rng))
        else:
            a, E, L, Q = rng.choice(PARAMS["complex"])
            rr = ref.real_roots(a, E, L, Q)
            rp = 1 + np.sqrt(1 - a * a)
            r = rp + (rr[-1] - rp) * rng.uniform(0.2, 0.9)
            x = 0.5
        z = np.sqrt(ref.zminus(a, E, L, Q))
        th = np.arccos(z * near_end(rng))
        pos, vel = ref.state(a, E, L, Q, float(r), float(th), rng.choice([-1, 1]), rng.choice([-1, 1]), 0.0, r6(rng.uniform(-3, 3)))
        kw = gen_kw(rng, phases=False)
        return {"k": k, "args": [a, pos, vel], "kw": kw}


def vary(rng, d):
    """A definition that differs from d in one respect only."""
    d = copy.deepcopy(d)
    kw = d["kw"]
    c = rng.randrange(9)
    if c == 0 and d["k"] != "orbit":
        ph = list(kw.get("initial_phases", [0, 0, 0, 0]))
        i = rng.randrange(4)
        ph[i] = ph[i] + rng.choice([1e-7, 0.5, -2, 6.25])
        kw["initial_phases"] = ph
    elif c == 1:
        kw["M"] = kw.get("M", 1) * rng.choice([2, 10, 1 + 1e-7])
    elif c == 2:
        kw["mu"] = kw.get("mu", 1) * rng.choice([2, 10, 1 + 1e-7])
    elif d["k"] == "orbit":
        args = d["args"]
        c2 = rng.randrange(3)
        if c2 == 0:  # same geodesic, other starting t / phi
            args[1][0] += rng.choice([1.0, 1e-6])
        elif c2 == 1:
            args[1][3] += rng.choice([1.0, 1e-6])
        else:  # the other way along the same turning points
            i = rng.choice([1, 2])
            args[2][i] = -args[2][i]
    else:
        i = rng.randrange(4)
        a = d["args"]
        if d["k"] == "stable":
            if c == 3:
                a[0], a[3] = -a[0], a[3]
                if a[0] != 0:
                    a[1] += 8  # stays bound after the flip
            elif c == 4:
                a[3] = -a[3]
                a[1] += 8
            elif i == 1:
                a[1] += rng.choice([1e-8, 1e-5, 1e-3, 1, 2])
            elif i == 2:
                a[2] = min(0.95, a[2] + rng.choice([1e-8, 1e-5, 1e-3]))
                a[1] += 0.1
            elif i == 3:
                a[3] = a[3] * (1 - rng.choice([1e-8, 1e-5, 1e-3]))
                a[1] += 0.1
            else:
                a[0] = a[0] * (1 - rng.choice([1e-8, 1e-5, 1e-3]))
                a[1] += 0.1
        else:
            eps = rng.choice([1e-8, 1e-6, 1e-4])
            if c == 3 and d["k"] == "plunge":
                a[2] = -a[2]
            else:
                a[i] = a[i] * (1 - eps)
    return d


def gen_x(rng, big=False):
    k = rng.random()
    if k < 0.35:
        return r6(rng.uniform(-8, 8))
    if k < 0.42:
        return rng.choice([0, 0.0, -0.0, 1, -1, 2])
    if k < 0.5:
        return {"s": r6(rng.uniform(-8, 8))}
    if k < 0.54:
        return {"z": r6(rng.uniform(-8, 8))}
    if k < 0.58:
        return {"m": [r6(rng.uniform(-8, 8)) for _ in range(2 * rng.randrange(1, 4))]}
    if k < 0.8:
        return {"a": [r6(rng.uniform(-8, 8)) for _ in range(rng.choice([1, 2, 3, 5, 8, 17]))]}
    a = r6(rng.uniform(-8, 4))
    return {"l": [a, a + r6(rng.uniform(0.1, 8)), rng.choice([2, 5, 16, 33, 100, 257 if big else 64])]}


HANDLES = ["trajectory"] * 6 + ["four_velocity"] * 2 + ["numerical_four_velocity", "_four_velocity_norm", "_numerical_four_velocity_norm"] + ["trajectory_deltas"] * 2


def gen_handle(rng, on, spec):
    m = rng.choice(HANDLES)
    kw = {}
    if rng.random() < 0.4:
        kw["initial_phases"] = gen_phases(rng)
        if spec["k"] != "orbit" and rng.random() < 0.2:  # nearly the orbit's own
            ph = list(spec["kw"].get("initial_phases", [0, 0, 0, 0]))
            i = rng.randrange(4)
            ph[i] += rng.choice([-1, 1]) * 10 ** -rng.uniform(1, 9)
            kw["initial_phases"] = ph
    if m == "trajectory":
        if "M" in spec["kw"] and rng.random() < 0.6 or rng.random() < 0.03:
            kw["distance_units"] = rng.choice(["natural", "mks", "cgs", "au", "km"])
            kw["time_units"] = rng.choice(["natural", "mks", "cgs", "days"])
        if rng.random() < 0.02:
            kw["time_units"] = "fortnights"
    if m in ("numerical_four_velocity", "_numerical_four_velocity_norm") and rng.random() < 0.5:
        kw["dx"] = rng.choice([1e-6, 1e-5, 1e-4])
    return {"on": on, "m": m, "kw": kw}


def vary_handle(rng, h):
    h = copy.deepcopy(h)
    kw = h["kw"]
    if rng.random() < 0.5:
        ph = list(kw.get("initial_phases", [0, 0, 0, 0]))
        ph[rng.randrange(4)] += rng.choice([1e-7, 1.0])
        kw["initial_phases"] = ph
    elif h["m"] == "trajectory" and "distance_units" in kw:
        kw["distance_units"] = rng.choice(["natural", "mks", "cgs", "au", "km"])
        kw["time_units"] = rng.choice(["natural", "mks", "cgs", "days"])
    else:
        h["m"] = rng.choice(HANDLES)
        h["kw"] = {k: v for k, v in kw.items() if k == "initial_phases"}
    return h


def n_components(m):
    """How many functions a handle (a method's name, or a definition) is made of; None for a bare function."""
    if isinstance(m, dict):
        if "f" in m:
            return m["n"]
        m = m.get("m", "four_velocity")
    return None if m.startswith("_") else 4


def dec_arg(v):
    """An argument: lists stand for tuples, {"arr"} and {"lst"} for arrays and lists."""
    if isinstance(v, dict):
        return np.array(v["arr"], dtype=float) if "arr" in v else list(v["lst"])
    return tuple(v) if isinstance(v, list) else v


def as_seq(rng, v):
    """The same sequence, sometimes as an array or a list."""
    if not isinstance(v, list):
        return v
    k = rng.random()
    return v if k < 0.5 else {"arr": v} if k < 0.8 else {"lst": v}


def gen_solution(rng):
    """A module-level function that returns functions of time or phase."""
    k = rng.randrange(7)
    if k < 4:
        a, p, e, x, _ = rng.choice([b for b in PARAMS["bound"][:200] if abs(b[3]) < 0.999])
        E, L, Q = ref.constants(a, p, e, x)
        if k == 0:
            rr = sorted(ref.roots(a, E, L, Q).real, reverse=True)
            return {"f": ["stable", "radial_solutions"], "args": [a, as_seq(rng, [E, L, Q]), as_seq(rng, [float(v) for v in rr])], "n": 3}
        if k == 1:
            z = ref.zminus(a, E, L, Q)
            zp = 1 + L * L / (a * a * (1 - E * E) * (1 - z)) if a else 1e9
            return {"f": ["stable", "polar_solutions"], "args": [a, as_seq(rng, [E, L, Q]), as_seq(rng, [float(z), float(zp)])], "n": 3}
        args = [a, p, e, x, as_seq(rng, gen_phases(rng))]
        if rng.random() < 0.5:
            args += [rng.choice([1, 10, 1e6]), rng.choice(["mks", "natural", "au"]), rng.choice(["mks", "natural", "days"])]
        return {"f": ["stable", "stable_trajectory"], "args": args, "n": 4}
    fam = rng.choice(["complex", "complex", "real_in", "real_out"])
    c = list(rng.choice(PARAMS[fam]))
    if k == 4:
        return {"f": ["plunge", "plunging_trajectory"], "args": c + [as_seq(rng, gen_phases(rng))], "n": 4}
    c = list(rng.choice(PARAMS["complex"]))
    f = rng.choice(["plunging_polar_solutions", "plunging_radial_solutions_complex", "plunging_radial_integrals"])
    return {"f": ["plunge", f], "args": c, "n": 4 if f.endswith("integrals") else 3}


UNITS = "mass_in_kg distance_in_meters distance_in_cm distance_in_km distance_in_lightyears distance_in_au time_in_seconds time2_in_seconds2 time_in_days energy_in_joules energy_in_ergs angular_momentum_in_mks angular_momentum_in_cgs carter_constant_in_mks carter_constant_in_cgs frequency_in_Hz frequency_in_mHz".split()


GIVEN = {  # what may be passed in instead of being computed again
    "stable_radial_roots": ["constants"],
    "stable_polar_roots": ["constants"],
    "angular_momentum": ["E"],
    "carter_constant": ["E", "L"],
    "r_frequency": ["constants"],
    "theta_frequency": ["constants"],
    "phi_frequency": ["constants", "upsilon_r", "upsilon_theta"],
    "gamma": ["constants", "upsilon_r", "upsilon_theta"],
    "is_stable": ["constants", "tol"],
    "stable_orbit_initial_phases": ["constants", "upsilon_r", "upsilon_theta", "tol"],
    "plunging_orbit_initial_phases": ["constants", "tol"],
}


def gen_given(rng, q):
    """Passes some of what the function would compute, right or a little off."""
    names = GIVEN.get(q["f"][1])
    if not names or q["f"] == ["constants", "is_stable"]:
        return q
    args = [list(v["arr"] if "arr" in v else v["lst"]) if isinstance(v, dict) else v for v in q["args"]]
    try:
        if q["f"][0] == "initial_conditions":
            C = [float(v) for v in ref.covariant(*args)[:3]]
        else:
            a, p, e, x = args
            C = [float(v) for v in ref.constants(abs(a), p, e, x if a >= 0 else -x)]
    except Exception:
        return q
    off = 1 + rng.choice([0, 0, 1e-9, 1e-3, -0.05])
    have = {"constants": [C[0] * off, C[1], C[2]], "E": C[0] * off, "L": C[1] * off, "upsilon_r": r6(rng.uniform(1, 4)), "upsilon_theta": r6(rng.uniform(2, 5)), "tol": rng.choice([1e-4, 1e-2, 0, 1e-8, 0.5])}
    kw = {n: have[n] for n in names if rng.random() < 0.6}
    return dict(q, kw=kw) if kw else q


def gen_fn(rng, slow=True):
    """A request for a module-level function."""
    q = gen_plain(rng, slow)
    return gen_given(rng, q) if q["r"] == "fn" and "kw" not in q and rng.random() < 0.3 else q


def gen_plain(rng, slow):
    a, p, e, x, _ = rng.choice(PARAMS["bound"])
    if rng.random() < 0.25:  # a near twin of a popular parameter set
        a, p, e, x, _ = PARAMS["bound"][rng.randrange(3)]
        p += rng.choice([0, 1e-8, 1e-5, 1.0])
    if rng.random() < 0.1:
        a, x = -a, -x
    k = rng.randrange(18)
    if k == 17:
        h = gen_solution(rng)
        return {"r": "fneval", "f": h["f"], "args": h["args"], "x": gen_x(rng)}
    if k == 0:
        u = rng.choice(UNITS)
        v = r6(rng.uniform(0.1, 10))
        if rng.random() < 0.3:
            v = {"arr": [r6(rng.uniform(0.1, 10)) for _ in range(rng.randrange(1, 6))]}
        return {"r": "fn", "f": ["units", u], "args": [v] if u == "mass_in_kg" else [v, rng.choice([1, 10, 1e6])]}
    if k == 1:
        return {"r": "fn", "f": ["constants", "separatrix"], "args": [a, e, x]}
    if k in (2, 4) and rng.random() < 0.06 and e < 0.98:  # just outside the separatrix
        p = ref.separatrix(abs(a), e, x if a >= 0 else -x) * (1 + 10 ** -rng.uniform(1, 6))
        if rng.random() < 0.5:
            return {"r": "fn", "f": ["constants", "is_stable"], "args": [a, p, e, x]}
    if k == 2:
        return {"r": "fn", "f": ["constants", rng.choice(["energy", "angular_momentum", "carter_constant", "constants_of_motion", "is_stable"])], "args": [a, p, e, x]}
    if k == 3:
        return {"r": "fn", "f": ["constants", rng.choice(["stable_radial_roots", "stable_polar_roots"])], "args": [a, p, e, x]}
    if k == 4:
        return {"r": "fn", "f": ["frequencies", rng.choice(["r_frequency", "theta_frequency", "phi_frequency", "gamma", "mino_frequencies", "fundamental_frequencies"])], "args": [a, p, e, x]}
    c = list(rng.choice(PARAMS[rng.choice(["complex", "real_in", "real_out"])]))
    if rng.random() < 0.3:
        c = list(PARAMS["complex"][rng.randrange(3)])
        c[rng.randrange(4)] *= 1 - rng.choice([0, 1e-8, 1e-5])
    if k == 5:
        return {"r": "fn", "f": rng.choice([["constants", "plunging_radial_roots"], ["frequencies", "plunging_mino_frequencies"]]), "args": c}
    if k == 6:
        E, L, Q = ref.constants(*PARAMS["bound"][rng.randrange(200)][:4])
        return {"r": "fn", "f": ["constants", "scale_constants"], "args": [as_seq(rng, [E, L, Q]), rng.choice([1, 1e6]), rng.choice([1, 0.1])]}
    if k == 7:
        a, p, e, x, _ = rng.choice([b for b in PARAMS["bound"][:200] if b[2] > 0.01 and b[4] > 0.2])
        E, L, Q = ref.constants(a, p, e, x)
        return {"r": "fn", "f": ["constants", "apex_from_constants"], "args": [a, E, L, Q]}
    if k == 8:
        f = rng.choice(["_ellippiinc", "_ellipeinc"])
        args = [r6(rng.uniform(-9, 9)), r6(rng.uniform(-0.9, 0.9)), r6(rng.uniform(0, 0.95))]
        if rng.random() < 0.4:
            args[0] = {"arr": [r6(rng.uniform(-9, 9)) for _ in range(rng.randrange(1, 9))]}
        return {"r": "fn", "f": ["frequencies", f], "args": args if f == "_ellippiinc" else [args[0], args[2]]}
    if k == 9:
        return {"r": "fneval", "f": ["stable", "stable_trajectory"], "args": [abs(a), p, e, x if a >= 0 else -x, gen_phases(rng)] + ([rng.choice([1, 10, 1e6]), rng.choice(["mks", "natural", "au"]), rng.choice(["mks", "natural", "days"])] if rng.random() < 0.5 else []), "x": gen_x(rng)}
    if k == 10:
        return {"r": "fneval", "f": ["plunge", "plunging_trajectory"], "args": c + [gen_phases(rng)], "x": gen_x(rng)}
    if k == 11:
        return {"r": "fneval", "f": ["plunge", rng.choice(["plunging_polar_solutions", "plunging_radial_solutions_complex", "plunging_radial_integrals"])], "args": list(rng.choice(PARAMS["complex"])), "x": gen_x(rng)}
    if k == 12:
        d = gen_obj(rng, ("orbit",))
        f = rng.choice(["constants_from_initial_conditions", "is_stable", "stable_orbit_initial_phases", "plunging_orbit_initial_phases"])
        return {"r": "fn", "f": ["initial_conditions", f], "args": [as_seq(rng, v) for v in d["args"]]}
    if k == 13 and slow and rng.random() < 0.15:
        return {"r": "sep", "a": rng.choice([0.3, 0.9, 0.9001]), "g": rng.choice([0.25, 0.2]), "e": r6(rng.random()), "x": r6(rng.uniform(-1, 1))}
    if k == 16 and rng.random() < 0.5:
        return gen_new(rng)
    return gen_bad(rng) if k < 15 else {"r": "fn", "f": ["constants", "valid_params"], "args": [a, e, x]}


def gen_bad(rng):
    """A request that is refused."""
    a, p, e, x, _ = rng.choice(PARAMS["bound"])
    if rng.random() < 0.4:
        return gen_refused(rng)
    c = rng.randrange(9)
    f = [
        {"f": ["constants", "constants_of_motion"], "args": [a, 1.2, e, x]},
        {"f": ["constants", "constants_of_motion"], "args": [1, p, e, x]},
        {"f": ["frequencies", "mino_frequencies"], "args": [a, p, 1, x]},
        {"f": ["frequencies", "mino_frequencies"], "args": [a, p, e, 0]},
        {"f": ["constants", "energy"], "args": [1.5, p, e, x]},
        {"f": ["stable", "stable_trajectory"], "args": [a, p, e, x, [0, 0, 0, 0], None, "mks"]},
        {"f": ["frequencies", "fundamental_frequencies"], "args": [a, p, -0.1, x]},
        {"f": ["constants", "separatrix"], "args": [a, 1.5, x]},
        {"f": ["frequencies", "r_frequency"], "args": [a, None, e, x]},
    ][c]
    return dict(f, r="fn")


def gen_new(rng, kinds=("stable", "plunge", "orbit", "orbit", "from_constants")):
    return dict(gen_obj(rng, kinds), r="new")


def gen_refused(rng):
    """An object that cannot be built, or only just can."""
    k = rng.randrange(6)
    if k < 2:  # a velocity off the mass shell
        d = gen_obj(rng, ("orbit",))
        a, pos, vel = d["args"]
        f = rng.choice([0.0, -1.0, 0.5, 1 + rng.choice([-1, 1]) * 10 ** -rng.uniform(1, 8)])
        vel = [v * f for v in vel] if k == 0 else [vel[0] * f] + list(vel[1:])
        return {"r": "new", "k": "orbit", "args": [a, pos, vel], "kw": d["kw"]}
    if k == 2:  # inside the separatrix, or next to it
        a, p, e, x, _ = rng.choice(PARAMS["bound"][:400])
        p = ref.separatrix(a, e, x) * (1 - 10 ** -rng.uniform(1, 8))
        return {"r": "new", "k": "stable", "args": [a, p, e, x], "kw": gen_kw(rng)}
    if k == 3:
        d = gen_obj(rng, ("stable",))
        d["kw"] = rng.choice([{"M": 1e6}, {"mu": 10}, {"M": -1, "mu": 1}, {"initial_phases": [0, 0, 0]}, {"initial_phases": [0, "a", 0, 0]}])
        return dict(d, r="new")
    if k == 4:
        return {"r": "new", "k": "spacetime", "args": [rng.choice([1.5, -0.1, 1, 1.0000001])], "kw": {}}
    return {"r": "new", "k": "plunge", "args": [rng.choice([1.5, -0.5, 0.9]), rng.choice([1.1, 0.9]), rng.choice([2.0, 4.0]), rng.choice([-1.0, 3.0])], "kw": {}}


def gen_call(rng, o, spec):
    if spec["k"] == "spacetime":
        return gen_spacetime(rng, o)
    k = rng.random()
    if k < 0.35:
        return {"r": "attrs", "o": o}
    units = rng.choice(["natural", "mks", "cgs", "mHz", "parsecs"])
    if k < 0.6 or spec["k"] in ("plunge", "orbit"):
        if k > 0.85:
            pts = [[r6(rng.uniform(-6, 6)) for _ in range(3)] for _ in range(rng.randrange(1, 6))]
            return {"r": "call", "o": o, "m": "is_visible", "args": [{"arr": pts}, rng.choice([30, 0, -20]), rng.choice([-60, 0, 90])]}
        return {"r": "call", "o": o, "m": "constants_of_motion", "kw": {"units": units} if rng.random() < 0.8 else {}}
    return {"r": "call", "o": o, "m": rng.choice(["mino_frequencies", "fundamental_frequencies"]), "kw": {"units": units}}


def nudge(rng, v):
    """A number that differs from v in one of the ways a careless key would miss."""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return v
    k = rng.random()
    if v in (-1, -2) and k < 0.6:  # one hash for both
        return type(v)(-3 - v)
    if k < 0.6:
        return v * (1 + rng.choice([-1, 1]) * 10.0 ** -rng.randrange(2, 15)) if v else 10.0 ** -rng.randrange(3, 12)
    if k < 0.75:
        return -v
    if k < 0.85:
        return int(v) if v == int(v) and isinstance(v, float) else float(v)
    return v * rng.choice([2, 0.5, 1.1])


BOUND_FNS = [["constants", f] for f in ("constants_of_motion", "constants_of_motion", "energy", "is_stable", "stable_radial_roots", "stable_polar_roots", "separatrix")] + [["frequencies", f] for f in ("r_frequency", "theta_frequency", "phi_frequency", "gamma", "mino_frequencies", "fundamental_frequencies")]


def storm(rng, n):
    """n cheap requests, all different: what a bounded table of answers has to let go of."""
    if rng.random() < 0.75:
        a, p, e, x, _ = rng.choice([b for b in PARAMS["bound"][:400] if b[4] > 0.05 and b[2] > 0])
        f = rng.choice(BOUND_FNS)
        args = [a, e, x] if f[1] == "separatrix" else [a, p, e, x]
        i, sign = rng.choice([(len(args) - 2, -1), (1, 1)])  # a smaller e or a larger p stays bound
        if i == 1 and f[1] == "separatrix":
            sign = -1
    else:
        f = rng.choice([["constants", "plunging_radial_roots"], ["frequencies", "plunging_mino_frequencies"]])
        args, i, sign = list(rng.choice(PARAMS["complex"])), rng.choice([1, 2, 3]), -1
    step = sign * rng.choice([1e-3, 1e-6, 1e-9])
    out = []
    for k in range(n):
        v = list(args)
        v[i] *= 1 + k * step
        out.append({"r": "fn", "f": f, "args": v})
    return out


def vary_one(rng, d):
    """A definition (orbit) that differs from d in exactly one number."""
    d = copy.deepcopy(d)
    kw = d["kw"]
    c = rng.random()
    if c < 0.2:
        kw["M"] = kw.get("M", 1) * rng.choice([2, 10, 1 + 1e-5, 1 + 1e-9])
    elif c < 0.3:
        kw["mu"] = kw.get("mu", 1) * rng.choice([2, 10, 1 + 1e-5, 1 + 1e-9])
    elif d["k"] == "orbit" and rng.random() < 0.5:
        d["args"] = twin_state(rng, d["args"])
    elif d["k"] == "orbit":
        i = rng.choice([0, 3])  # any starting t and phi make a valid state
        d["args"][1][i] = nudge(rng, d["args"][1][i])
        if rng.random() < 0.4:
            i = rng.choice([1, 2])
            d["args"][2][i] = -d["args"][2][i]
    elif c < 0.5:
        ph = list(kw.get("initial_phases", [0, 0, 0, 0]))
        i = rng.randrange(4)
        ph[i] = nudge(rng, ph[i])
        kw["initial_phases"] = ph
    else:
        i = rng.randrange(4)
        d["args"][i] = nudge(rng, d["args"][i])
    return d


def contrast(rng):
    """Requests that are identical but for one number: definitions and the requests."""
    if rng.random() < 0.45:  # orbits
        base = gen_obj(rng)
        if base["k"] == "stable" and rng.random() < 0.5:
            base["args"][1] += 8  # stays bound whatever is flipped
        if rng.random() < 0.7:
            base["kw"]["M"] = base["kw"].get("M", 1e6)
            base["kw"]["mu"] = base["kw"].get("mu", 10)
        defs = {"o0": base}
        for i in range(1, rng.randrange(2, 5)):
            defs["o%d" % i] = vary_one(rng, base)
        objs = list(defs)
        reqs = []
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            if k < 0.65:
                h = gen_handle(rng, "o0", base)
                j = len(defs)
                c = n_components(h["m"])
                if c is not None:
                    c = rng.randrange(4)
                x = gen_x(rng)
                for o in objs:
                    defs["h%d%s" % (j, o)] = dict(h, on=o)
                    reqs.append({"r": "eval", "h": "h%d%s" % (j, o), "c": c, "x": x})
                if "initial_phases" in h["kw"] and rng.random() < 0.5:
                    ph = list(h["kw"]["initial_phases"])
                    i = rng.randrange(4)
                    ph[i] = nudge(rng, ph[i])
                    defs["h%dv" % j] = dict(h, kw=dict(h["kw"], initial_phases=ph))
                    reqs.append({"r": "eval", "h": "h%dv" % j, "c": c, "x": x})
            elif k < 0.75:
                reqs += [{"r": "make", "o": o} for o in objs]
            else:
                u = rng.choice(["natural", "mks", "cgs", "mHz"])
                m = rng.choice(["constants_of_motion", "mino_frequencies", "fundamental_frequencies"])
                reqs += [{"r": "call", "o": o, "m": m, "kw": {"units": u}} for o in objs]
        return defs, reqs
    if rng.random() < 0.12:  # points of one spacetime, or one point of several
        a = rng.choice([0.0, 0.9, r6(rng.uniform(0, 0.99))])
        defs = {"o0": {"k": "spacetime", "args": [a], "kw": {}}, "o1": {"k": "spacetime", "args": [nudge(rng, a) if rng.random() < 0.8 else 0.5], "kw": {}}}
        reqs = [gen_spacetime(rng, rng.choice(["o0", "o1"])) for _ in range(rng.randrange(2, 5))]
        q = rng.choice(reqs)
        return defs, reqs + [dict(q, o="o1" if q["o"] == "o0" else "o0")]
    if rng.random() < 0.07:
        f = rng.choice(["is_stable", "is_stable", "constants_from_initial_conditions", None])
        reqs = [{"r": "new", "k": "orbit", "args": v} if f is None else {"r": "fn", "f": ["initial_conditions", f], "args": v} for v in edge_states(rng)]
        if rng.random() < 0.3:
            reqs.append({"r": "new", "k": "orbit", "args": rng.choice(reqs)["args"]})
        return {}, reqs
    while True:
        q = gen_fn(rng, slow=False) if rng.random() < 0.95 else gen_fn(rng, slow=True)
        if q["r"] == "sep" or any(isinstance(v, (int, float)) for v in q["args"]):
            break
    if q["r"] == "sep":
        return {}, [q, dict(q, a=nudge(rng, q["a"])), dict(q, g=nudge(rng, q["g"])), dict(q, x=nudge(rng, q["x"]))]
    f = q.get("f", ["", ""])
    if len(q["args"]) >= 4 and f[0] in ("constants", "frequencies", "stable") and f[1] not in ("_ellippiinc", "plunging_radial_roots", "plunging_mino_frequencies", "apex_from_constants") and rng.random() < 0.5:
        # parameters on either side of the separatrix, or between two separatrices
        a, p, e, x = q["args"][:4]
        if a is not None and p is not None and 0 <= abs(a) < 1 and 0 <= e < 1 and x:
            a, x = abs(a), (x if a >= 0 else -x)
            sep = ref.separatrix(a, e, x)
            vs = []
            if rng.random() < 0.5:
                d = 10.0 ** -rng.randrange(2, 9)
                for s in (1 + d, 1 - d, 1 + 2 * d):
                    vs.append([a, sep * s, e, x])
            else:
                d = 10.0 ** -rng.randrange(2, 7)
                i = rng.choice([0, 0, 2, 3])
                b = [a, 0, e, x]
                b[i] *= 1 - d
                p = (sep + ref.separatrix(b[0], b[2], b[3])) / 2
                b[1] = p
                vs = [[a, p, e, x], b, [a, p, e, -x], [a, p + 3, e, -x]]
            return {}, [dict(q, args=v + q["args"][4:]) for v in vs]
    reqs = [q]
    i = rng.randrange(len(q["args"]))
    if f[0] == "initial_conditions" and rng.random() < 0.6:
        plain = [list(v["arr"] if "arr" in v else v["lst"]) if isinstance(v, dict) else v for v in q["args"]]
        return {}, reqs + [dict(q, args=twin_state(rng, plain)) for _ in range(rng.randrange(1, 3))]
    for _ in range(rng.randrange(1, 4)):
        args = copy.deepcopy(q["args"])
        if rng.random() < 0.3:
            i = rng.randrange(len(args))
        if isinstance(args[i], list):
            j = rng.randrange(len(args[i]))
            args[i][j] = nudge(rng, args[i][j])
        else:
            args[i] = nudge(rng, args[i])
        reqs.append(dict(q, args=args))
    if "x" in q:
        reqs.append(dict(q, x=gen_x(rng)))
    if q.get("kw"):
        kw = copy.deepcopy(q["kw"])
        n = rng.choice(sorted(kw))
        if isinstance(kw[n], list):
            i = rng.randrange(len(kw[n]))
            kw[n][i] = nudge(rng, kw[n][i])
        else:
            kw[n] = nudge(rng, kw[n])
        reqs.append(dict(q, kw=kw))
        reqs.append({k: v for k, v in q.items() if k != "kw"})
    return {}, reqs


def gen_spacetime(rng, o):
    k = rng.randrange(4)
    pt = [0.0, r6(rng.uniform(2.1, 12)), r6(rng.uniform(0.2, 2.9)), r6(rng.uniform(-3, 3))]
    if k == 0:
        return {"r": "call", "o": o, "m": "metric", "args": pt}
    if k == 1:
        return {"r": "call", "o": o, "m": "norm", "args": pt + [{"arr": [r6(rng.uniform(-2, 2)) for _ in range(4)]}]}
    e, x = r6(rng.uniform(0, 0.9)), rng.choice([1, -1, r6(rng.uniform(-1, 1))])
    if k == 2:
        return {"r": "call", "o": o, "m": "separatrix", "args": [e, x]}
    return {"r": "call", "o": o, "m": "is_stable", "args": [r6(rng.uniform(2, 14)), e, x]}


def gen_defs(rng, n_obj, n_handles, kinds=("stable", "stable", "plunge", "orbit", "from_constants"), twins=0.6):
    defs = {}
    objs = []
    for i in range(n_obj):
        t = rng.choice(objs) if objs else None
        if t and rng.random() < twins and defs[t]["k"] != "spacetime":
            d = vary(rng, defs[t])
        elif t and rng.random() < 0.08:
            d = {"k": "spacetime", "args": [rng.choice([0.0, 0.5, 0.9, r6(rng.uniform(0, 0.99))])], "kw": {}}
        else:
            d = gen_obj(rng, kinds)
        defs["o%d" % i] = d
        objs.append("o%d" % i)
    hs = []
    orbits = [n for n in objs if defs[n]["k"] != "spacetime"]
    for i in range(n_handles):
        o = rng.choice(orbits)
        if hs and rng.random() < twins:
            h = vary_handle(rng, defs[rng.choice(hs)])
            if rng.random() < 0.5:
                h["on"] = o
        else:
            h = gen_handle(rng, o, defs[o])
        defs["h%d" % i] = h
        hs.append("h%d" % i)
    return defs, objs, hs


def gen_req(rng, defs, objs, hs, slow=True):
    k = rng.random()
    if k < 0.5 and hs:
        h = rng.choice(hs)
        if rng.random() < 0.25:
            return {"r": "again", "h": h, "x": gen_x(rng)}
        c = n_components(defs[h]["m"])
        return {"r": "eval", "h": h, "c": None if c is None else rng.randrange(c), "x": gen_x(rng)}
    if k < 0.7:
        o = rng.choice(objs)
        return gen_call(rng, o, defs[o])
    if k < 0.8:
        return {"r": "make", "o": rng.choice(objs)}
    return gen_fn(rng, slow)
