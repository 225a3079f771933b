"""Universes: isolated, freshly executed copies of the kerrgeopy package.

A universe is what a new Python process would have after `import kerrgeopy`: every module of
the package is executed anew from /repo's working tree, so nothing the library remembers
(module globals, class attributes, function caches) is shared with any other universe.  The
simulator uses one universe per simulated process / node: dropping it is a crash (volatile
state is gone), making a new one is a restart, and a throw-away one is the clean room in which
a request is answered alone.
"""
from . import env
import gc
import glob
import importlib
import importlib.abc
import importlib.util
import os
import sys
import threading
import warnings

import numpy as np
import scipy.special  # noqa: F401
import scipy.optimize  # noqa: F401
import scipy.interpolate  # noqa: F401
import matplotlib
import matplotlib.pyplot as plt
import matplotlib.animation  # noqa: F401
import mpl_toolkits.mplot3d.art3d  # noqa: F401
import tqdm as _tqdm

from . import sched

PKG = "kerrgeopy"
_codes = {}


def _load_codes():
    if _codes:
        return
    for path in sorted(glob.glob(os.path.join(env.PKGDIR, "**", "*.py"), recursive=True)):
        rel = os.path.relpath(path, env.PKGDIR)[:-3].replace(os.sep, ".")
        is_pkg = rel == "__init__" or rel.endswith(".__init__")
        name = PKG if rel == "__init__" else PKG + "." + (rel[: -len(".__init__")] if is_pkg else rel)
        with open(path, "rb") as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _codes[name] = (compile(src, path, "exec", dont_inherit=True), is_pkg, path)


class _Loader(importlib.abc.Loader):
    def __init__(self, code):
        self.code = code

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(self.code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == PKG or name.startswith(PKG + "."):
            _load_codes()
            if name in _codes:
                code, is_pkg, filename = _codes[name]
                spec = importlib.util.spec_from_loader(
                    name, _Loader(code), origin=filename, is_package=is_pkg
                )
                if is_pkg:
                    spec.submodule_search_locations = [os.path.dirname(filename)]
                spec.has_location = True
                return spec
        return None


sys.meta_path.insert(0, _Finder())


def _ours():
    return [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]


_active = [None]
n_made = 0


class Universe:
    """One simulated process' copy of the library."""

    def __init__(self):
        global n_made
        n_made += 1
        _load_codes()
        previous = _active[0]
        if previous is not None:
            previous._save()
        self._clear()
        old = sys.gettrace()
        sys.settrace(None)
        try:
            self.root = importlib.import_module(PKG)
            for name in sorted(_codes):
                importlib.import_module(name)
            self._save()
        finally:
            sys.settrace(old)
            self._clear()
            _active[0] = None
            if previous is not None:
                previous.activate()

    @staticmethod
    def _clear():
        for m in _ours():
            del sys.modules[m]

    def _save(self):
        self.modules = {m: sys.modules[m] for m in _ours()}

    def activate(self):
        if _active[0] is self:
            return self
        if _active[0] is not None:
            _active[0]._save()
        self._clear()
        sys.modules.update(self.modules)
        _active[0] = self
        return self

    def __enter__(self):
        self._outer = _active[0]
        return self.activate()

    def __exit__(self, *exc):
        self._save()
        self._clear()
        _active[0] = None
        if self._outer is not None:
            self._outer.activate()
        self._outer = None
        return False

    def mod(self, name):
        return self.modules[PKG + "." + name] if name else self.modules[PKG]


# ---------------------------------------------------------------- process-wide state

_rc0 = dict(matplotlib.rcParams)
_err0 = np.geterr()
_filters0 = list(warnings.filters)
_print0 = np.get_printoptions()
_errcall0 = np.geterrcall()
_environ0 = dict(os.environ)
_cwd0 = os.getcwd()


def reset_process():
    """Put everything process-wide back to the same known state before each run."""
    sys.settrace(None)
    if _active[0] is not None:
        _active[0]._save()
        Universe._clear()
        _active[0] = None
    if plt.get_fignums():
        plt.close("all")
    np.seterr(**_err0)
    np.seterrcall(_errcall0)
    np.random.seed(12345)
    import random

    random.seed(12345)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if dict(matplotlib.rcParams) != _rc0:
            dict.update(matplotlib.rcParams, _rc0)
    warnings.filters[:] = _filters0
    getattr(warnings, "_filters_mutated", lambda: None)()
    np.set_printoptions(**_print0)
    if dict(os.environ) != _environ0:
        os.environ.clear()
        os.environ.update(_environ0)
    if os.getcwd() != _cwd0:
        os.chdir(_cwd0)
    sched.reset()


_real_Lock, _real_RLock = threading.Lock, threading.RLock


def _from_repo(depth=2):
    f = sys._getframe(depth)
    return f.f_code.co_filename.startswith(env.PKGDIR)


def _Lock(*a, **k):
    return sched.SimLock(False) if _from_repo() else _real_Lock(*a, **k)


def _RLock(*a, **k):
    return sched.SimLock(True) if _from_repo() else _real_RLock(*a, **k)


threading.Lock, threading.RLock = _Lock, _RLock

# -- the clock seam: library code that asks for the time is given the simulated clock
import time as _time


def _wrap_clock(name):
    real = getattr(_time, name)

    def clock():
        if sys._getframe(1).f_code.co_filename.startswith(env.PKGDIR):
            return sched.clock[0]
        return real()

    setattr(_time, name, clock)
    return real


_real_clocks = {n: _wrap_clock(n) for n in ("time", "monotonic", "perf_counter")}


def wall():
    return _real_clocks["monotonic"]()


_real_sleep = _time.sleep


def _sleep(s):
    if sys._getframe(1).f_code.co_filename.startswith(env.PKGDIR):
        sched.clock[0] += s
        return
    _real_sleep(s)


_time.sleep = _sleep
