"""The seeded cooperative scheduler.

The simulated threads are real Python threads, but exactly one holds the baton at any time.
While a simulated thread executes library code every source line (or, in opcode mode, every
bytecode instruction) is a scheduling point: the seeded scheduler decides there whether the
baton moves and to whom, and whether an interrupt is delivered.  Calls that leave the library
(numpy, scipy, matplotlib) run to completion, unless they call back into it.  The switches made
are recorded as [thread, events executed by it so far, next thread], which replays exactly.
"""
from . import env
import _thread
import ast
import dis
import random
import sys
import threading

PREFIX = env.PKGDIR

clock = [1_700_000_000.0]  # the simulated clock, in seconds
_current = [None]  # the running Scheduler, if any


def reset():
    clock[0] = 1_700_000_000.0
    _current[0] = None


class Deadlock(Exception):
    pass


class StepLimit(BaseException):
    pass


class Cancelled(BaseException):
    """Asynchronous cancellation of the calling thread."""


INTERRUPTS = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "Cancelled": Cancelled,
}


_cleanup_lines = {}
_with_exits = {}


def _finally_lines(path):
    if path not in _cleanup_lines:
        out = set()
        try:
            with open(path) as f:
                tree = ast.parse(f.read())
            for node in ast.walk(tree):
                for n in getattr(node, "finalbody", ()):
                    out.update(range(n.lineno, n.end_lineno + 1))
        except (OSError, SyntaxError, ValueError):
            pass
        _cleanup_lines[path] = out
    return _cleanup_lines[path]


def _exit_offsets(code):
    """Where a with statement hands over to __exit__ and where a try statement begins: no handler
    covers these instructions, and the interpreter delivers nothing between them."""
    if code not in _with_exits:
        ins = [i for i in dis.get_instructions(code) if i.opname != "CACHE"]
        out = set()
        for a, b, c, d in zip(ins, ins[1:], ins[2:], ins[3:]):
            if a.opname == b.opname == c.opname == "LOAD_CONST" and d.opname == "CALL" and d.arg == 2 and a.argval is b.argval is c.argval is None:
                out.update((a.offset, b.offset, c.offset, d.offset))
            elif a.opname == "NOP":  # the line of a try statement
                out.add(a.offset)
            elif a.opname == "WITH_EXCEPT_START" or b.opname == "WITH_EXCEPT_START":
                out.update((a.offset, b.offset))
        _with_exits[code] = out
    return _with_exits[code]


def cleaning_up(frame):
    """Whether an interrupt here would hit the undoing of something, or the step between doing it
    and being ready to undo it, which no code can survive."""
    while frame is not None:
        path = frame.f_code.co_filename
        if path.startswith(PREFIX) or path.endswith(".py") and "/site-packages/" in path:
            if frame.f_lasti in _exit_offsets(frame.f_code) or frame.f_lineno in _finally_lines(path):
                return True
        frame = frame.f_back
    return False


def quiesce(frame):
    """Before an exception leaves a trace function: CPython 3.12 then stops tracing the thread, but
    still calls the (missing) trace function for frames that asked for bytecode events."""
    while frame is not None:
        if frame.f_trace_opcodes:
            frame.f_trace_opcodes = False
        frame = frame.f_back


class SimLock:
    """Stands in for threading.Lock/RLock objects that library code creates."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = _current[0]
        me = s.me() if s is not None else _thread.get_ident()
        while self.count and not (self.reentrant and self.owner == me):
            if not blocking or s is None:
                return False
            s.block(lambda: not self.count)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return bool(self.count)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


# The root finders execute the same few lines tens of thousands of times: within one request only
# the first CAP executions of a given line (bytecode) are scheduling / interruption points.
CAP = 6


class Tracer:
    """Counts library events on one thread and delivers an interrupt at a chosen one."""

    def __init__(self, at=None, exc=None, opcodes=False, limit=None, extra=(), on_event=None, cap=CAP):
        self.n = 0
        self.raw = 0
        self.cap = cap
        self.seen = {}
        self.at, self.exc, self.opcodes, self.limit = at, exc, opcodes, limit
        self.prefixes = (PREFIX,) + tuple(extra)
        self.fired = None
        self.on_event = on_event

    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefixes):
            return None
        c = id(frame.f_code)
        k = self.seen[c] = self.seen.get(c, 0) + 1
        if k > 3 * self.cap:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.raw += 1
            if self.limit is not None and self.raw > self.limit:
                quiesce(frame)
                raise StepLimit()
            key = (id(frame.f_code), frame.f_lasti)
            k = self.seen[key] = self.seen.get(key, 0) + 1
            if k > self.cap:
                return self._local
            self.n += 1
            if self.on_event is not None:
                self.on_event(frame)
            if self.at is not None and self.n >= self.at and not cleaning_up(frame):
                self.fired = "%s:%s:%d" % (
                    frame.f_code.co_filename.rsplit("/", 1)[-1],
                    frame.f_code.co_name,
                    frame.f_lineno,
                )
                self.at = None
                quiesce(frame)
                raise self.exc("injected")
        return self._local

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self._global)
        try:
            return fn()
        finally:
            sys.settrace(old)


class Scheduler:
    """Runs callables as simulated threads under seeded scheduling.

    policy: {"mode": "random", "seed": s, "gap": mean events between preemptions,
             "opcodes": bool, "stall": p, "prio": k} or {"mode": "log", "log": [[tid,n,next]..]}
    """

    def __init__(self, policy, limit=2_000_000):
        self.policy = policy
        self.rng = random.Random(policy.get("seed", 0))
        self.opcodes = policy.get("opcodes", False)
        self.cap = policy.get("cap", CAP)
        self.raw = 0
        self.log = []
        self.steps = 0
        self.limit = limit
        self.threads = []
        self.trace_sig = []
        self.replay = None
        if policy["mode"] == "log":
            self.replay = {}
            for tid, n, nxt in policy["log"]:
                self.replay.setdefault((tid, n), []).append(nxt)
        self.failure = None
        self.interrupts = {}  # tid -> (event number, exception class)
        self.fired = []
        self.done_lock = _thread.allocate_lock()
        self.prio = None
        if policy.get("prio"):
            self.prio_changes = None

    # -- threads
    def spawn(self, fn, interrupt=None):
        tid = len(self.threads)
        lock = _thread.allocate_lock()
        lock.acquire()
        self.threads.append(
            {"tid": tid, "fn": fn, "lock": lock, "n": 0, "done": False, "wait": None, "stall": 0, "seen": {}}
        )
        if interrupt:
            self.interrupts[tid] = interrupt
        return tid

    def new_request(self):
        """Called by a simulated thread before each of its requests."""
        self.threads[self.cur]["seen"].clear()

    def me(self):
        return self.cur

    def runnable(self, t):
        return not t["done"] and (t["wait"] is None or t["wait"]())

    def run(self):
        self.done_lock.acquire()
        self.cur = None
        _current[0] = self
        p = self.policy
        if self.replay is None:
            n = len(self.threads)
            if p.get("prio"):
                order = list(range(n))
                self.rng.shuffle(order)
                self.prio = {t: i for i, t in enumerate(order)}
        for t in self.threads:
            threading.Thread(target=self._body, args=(t,), daemon=True).start()
        self.next_gap()
        first = self.pick(None, (-1, 0))
        self.log.append([-1, 0, first])
        self.resume(first)
        self.done_lock.acquire()
        _current[0] = None
        if self.failure:
            raise self.failure
        return self.log

    def _body(self, t):
        t["lock"].acquire()
        tracer = self._make_trace(t)
        sys.settrace(tracer)
        try:
            t["fn"]()
        except StepLimit:
            pass
        except BaseException as e:  # harness error: callables catch their own exceptions
            self.failure = e
        finally:
            sys.settrace(None)
            t["done"] = True
            self.leave(t)

    def _make_trace(self, t):
        opc = self.opcodes

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.raw += 1
                key = (id(frame.f_code), frame.f_lasti)
                seen = t["seen"]
                k = seen[key] = seen.get(key, 0) + 1
                if k <= self.cap:
                    t["n"] += 1
                    self.tick(t, frame)
                elif self.raw > 10 * self.limit:
                    self.failure = self.failure or StepLimit("more than %d steps" % self.limit)
                    quiesce(frame)
                    raise StepLimit()
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(PREFIX):
                return None
            c = id(frame.f_code)
            seen = t["seen"]
            k = seen[c] = seen.get(c, 0) + 1
            if k > 3 * self.cap:
                return None
            if opc:
                frame.f_trace_opcodes = True
            return local

        return glob

    # -- decisions
    def next_gap(self):
        g = self.policy.get("gap", 100)
        self.gap = 1 + int(self.rng.expovariate(1.0 / g)) if self.replay is None else 1

    def pick(self, t, key):
        """Who runs next, at a scheduling point with the given key."""
        ready = [x["tid"] for x in self.threads if self.runnable(x)]
        if not ready:
            return None
        if self.replay is not None:
            todo = self.replay.get(key)
            nxt = todo.pop(0) if todo else None
            if nxt is None or nxt not in ready:
                if t is not None and self.runnable(t):
                    return t["tid"]
                nxt = ready[0]
            return nxt
        if self.prio is not None:
            # PCT: highest priority runs; at a change point the running thread drops to the back
            if t is not None:
                self.prio[t["tid"]] = max(self.prio.values()) + 1
            return min(ready, key=lambda x: self.prio[x])
        stall = self.policy.get("stall", 0)
        if stall and t is not None and t["tid"] == self.policy.get("victim", t["tid"]) and self.rng.random() < stall and any(x != t["tid"] and self.threads[x]["stall"] <= self.steps for x in ready):
            t["stall"] = self.steps + int(self.rng.expovariate(1.0 / self.policy.get("stall_for", 3000.0)))
        awake = [x for x in ready if self.threads[x]["stall"] <= self.steps] or ready
        return awake[self.rng.randrange(len(awake))]

    def tick(self, t, frame):
        self.steps += 1
        if self.steps > self.limit:
            self.failure = self.failure or StepLimit("more than %d steps" % self.limit)
            quiesce(frame)
            raise StepLimit()
        it = self.interrupts.get(t["tid"])
        if it is not None and t["n"] >= it[0] and not cleaning_up(frame):
            del self.interrupts[t["tid"]]
            self.fired.append([t["tid"], t["n"], frame.f_code.co_name, frame.f_lineno])
            quiesce(frame)
            raise it[1]("injected")
        if self.replay is not None:
            key = (t["tid"], t["n"])
            if not self.replay.get(key):
                return
        else:
            self.gap -= 1
            if self.gap > 0:
                return
            self.next_gap()
        nxt = self.pick(t, (t["tid"], t["n"]))
        if nxt is not None and nxt != t["tid"]:
            self.log.append([t["tid"], t["n"], nxt])
            self.trace_sig.append((t["tid"], frame.f_code.co_name, frame.f_lineno, nxt))
            self.switch(t, nxt)

    def switch(self, t, nxt):
        self.resume(nxt)
        t["lock"].acquire()
        self.cur = t["tid"]

    def resume(self, tid):
        self.cur = tid
        self.threads[tid]["lock"].release()

    def block(self, cond):
        t = self.threads[self.cur]
        t["wait"] = cond
        nxt = self.pick(t, (t["tid"], t["n"]))
        if nxt is None:
            self.failure = Deadlock("every simulated thread is blocked")
            self.done_lock.release()
            t["lock"].acquire()  # parked for ever: the run is over
        if nxt != t["tid"]:
            self.log.append([t["tid"], t["n"], nxt])
            self.switch(t, nxt)
        t["wait"] = None

    def leave(self, t):
        if all(x["done"] for x in self.threads):
            self.done_lock.release()
            return
        nxt = self.pick(t, (t["tid"], t["n"] + 1))
        if nxt is None:
            if not isinstance(self.failure, Deadlock):
                self.failure = Deadlock("a simulated thread is blocked for ever")
            self.done_lock.release()
            return
        self.log.append([t["tid"], t["n"] + 1, nxt])
        self.resume(nxt)


def _enable_opcode_events():
    """CPython 3.12 only delivers opcode events after a first request and another settrace."""

    def f():
        return 1

    def g(frame, event, arg):
        frame.f_trace_opcodes = True
        return g

    for _ in range(2):
        sys.settrace(g)
        f()
        sys.settrace(None)


_enable_opcode_events()
