"""Everything process-wide that a library call could disturb, as comparable snapshots."""
from . import env
import builtins
import atexit
import contextlib
import decimal
import faulthandler
import gc
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import scipy.special
import tqdm

_SIGS = [s for s in signal.valid_signals() if s not in (signal.SIGKILL, signal.SIGSTOP)]
# the progress bar's own monitor thread would be a second source of scheduling
tqdm.tqdm.monitor_interval = 0


def _fds():
    out = []
    for f in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            out.append((int(f), os.readlink("/proc/self/fd/" + f)))
    # the descriptor of the listing itself
    return tuple(sorted(t for t in out if not t[1].startswith("/proc/") and not t[1].endswith((".ttf", ".afm"))))


def _umask():
    m = os.umask(0)
    os.umask(m)
    return m


def _hash(b):
    return hash(b)


def snapshot(figures=True):
    st = np.random.get_state()
    root = logging.getLogger()
    s = {
        "numpy error handling": (tuple(sorted(np.geterr().items())), np.geterrcall()),
        "numpy buffer size": np.getbufsize(),
        "scipy.special error handling": tuple(sorted(scipy.special.geterr().items())),
        "numpy random state": (st[0], _hash(st[1].tobytes())) + tuple(st[2:]),
        "random state": _hash(random.getstate()),
        "warning filters": tuple(warnings.filters),
        "warnings.showwarning": (warnings.showwarning, warnings.formatwarning),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "rcParams": _rc(),
        "pyplot interactive mode": (plt.isinteractive(), matplotlib.get_backend()),
        "signal handlers": tuple((int(n), signal.getsignal(n)) for n in _SIGS),
        "timers": signal.getitimer(signal.ITIMER_REAL)[1],
        "environment": tuple(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "umask": _umask(),
        "threads": tuple(sorted(t.ident or 0 for t in threading.enumerate())),
        "descriptors": _fds(),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count()),
        "locale": locale.setlocale(locale.LC_ALL),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (sys.excepthook, threading.excepthook, sys.unraisablehook, sys.displayhook, sys.getprofile()),
        "logging": (root.level, tuple(root.handlers), root.manager.disable, tuple(root.filters), logging.raiseExceptions),
        "sys.path": tuple(sys.path),
        "import hooks": (len(sys.meta_path), len(sys.path_hooks)),
        "decimal context": (decimal.getcontext().prec, decimal.getcontext().rounding),
        "faulthandler": faulthandler.is_enabled(),
        "exit handlers": atexit._ncallbacks(),
        "resource limits": tuple(resource.getrlimit(r) for r in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_CPU, resource.RLIMIT_STACK)),
        "nice": os.getpriority(os.PRIO_PROCESS, 0),
        "socket timeout": socket.getdefaulttimeout(),
        "tempfile.tempdir": tempfile.tempdir,
        "builtins": _hash(tuple(sorted((k, id(v)) for k, v in vars(builtins).items() if k != "_"))),
        "numpy and scipy functions": tuple(id(f) for f in (np.sqrt, np.linspace, np.array, np.sin, np.errstate, scipy.special.ellipj, scipy.special.ellipk, tqdm.tqdm, plt.figure, plt.close)),
        "matplotlib styles": len(matplotlib.rcParams),
        "progress bars": len(getattr(tqdm.tqdm, "_instances", ())),
    }
    if figures:
        s["figures"] = tuple(plt.get_fignums())
        m = plt._pylab_helpers.Gcf.get_active()
        s["current figure"] = m.num if m is not None else None
    return s


def _rc():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return tuple(sorted(((k, repr(v)) for k, v in dict.items(matplotlib.rcParams))))


def changed(a, b, skip=()):
    """None, or what differs between two snapshots."""
    for k in a:
        if k in skip or a[k] == b.get(k):
            continue
        if isinstance(a[k], tuple) and isinstance(b[k], tuple):
            gone = [x for x in a[k] if x not in b[k]][:2]
            new = [x for x in b[k] if x not in a[k]][:2]
            return k, "%s changed: %s -> %s" % (k, str(gone or a[k])[:200], str(new or b[k])[:200])
        return k, "%s changed: %s -> %s" % (k, str(a[k])[:200], str(b[k])[:200])
    return None
