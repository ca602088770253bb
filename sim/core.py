"""Run engine: one case (a JSON value) is one exactly repeatable simulated execution."""
import gc
import dis
import hashlib
import json
import random
import sys
import threading
import traceback
from fractions import Fraction as F

import env
from env import W, SimConsole, make_exc, repo_frame


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, msg)
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    pass


LINE_BUDGET = 40_000_000      # simulated steps per operation: the liveness bound


class LineClock:
    """Counts simulated steps and injects an interruption at one of them.

    A step is a Python function call made by library code (into the library, the
    Fraction arithmetic, numpy, sympy ...). The interruption is raised at the entry of
    that call, so it lands inside real work rather than between two plain statements.
    """

    def __init__(self):
        self.target = None
        self.exc = None
        self.count = 0

    def arm(self, n, exc):
        self.count = 0
        self.target = n
        self.exc = exc

    def tracer(self, frame, event, arg):
        if not repo_frame(frame.f_code.co_filename):
            back = frame.f_back
            if back is None or not repo_frame(back.f_code.co_filename):
                return None
        if frame.f_code.co_filename.startswith("<frozen"):
            return None     # interpreter internals entered from C: not a step of the library
        self.count += 1
        if self.target is not None and self.count >= self.target:
            self.target = None
            W.fired.append("interrupt:" + self.exc)
            raise make_exc(self.exc)
        if self.count > LINE_BUDGET:
            raise Violation("liveness", "operation made more than %d calls" % LINE_BUDGET)
        return None


class Outcome:
    __slots__ = ("kind", "value", "exc", "fired", "out", "lines")

    def __init__(self, kind, value=None, exc=None, fired=(), out="", lines=0):
        self.kind, self.value, self.exc, self.fired, self.out, self.lines = kind, value, exc, list(fired), out, lines

    @property
    def ok(self):
        return self.kind == "ok"


class Env:
    """Handed to a workload for one run."""

    def __init__(self, case):
        self.case = case
        self.events = []
        self.states = set()
        self.probes = {}
        self.nops = 0
        self.nthreads_switches = 0
        self.sim_lines = 0
        self.interleavings = set()

    # -- logging ---------------------------------------------------------
    def log(self, *a):
        self.events.append(" ".join(str(x) for x in a))

    def cover(self, *key):
        self.states.add("|".join(str(k) for k in key))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fail(self, cls, msg):
        self.log("VIOLATION", cls, msg)
        raise Violation(cls, msg)

    # -- calling the library under faults -------------------------------
    def call(self, fn, fault=None, label="op"):
        """Call fn() with an optional fault. Returns an Outcome:
        ok    - returned a value
        fault - raised after an injected fault fired
        error - raised without any injected fault
        """
        self.nops += 1
        con = SimConsole()
        old = sys.stdout
        nf = len(W.fired)
        clk = LineClock()
        kind = (fault or {}).get("kind")
        W.solver_fault = None
        W.solver_calls = {}
        W.plots, W.draws, W.draw_fault = [], 0, None
        if kind == "solver":
            W.solver_fault = (fault["which"], fault["nth"], fault.get("exc", "RuntimeError"))
        elif kind == "console":
            con.fail_at = fault["nth"]
            con.errno = fault.get("errno", 32)
        elif kind == "interrupt":
            clk.arm(fault["at"], fault.get("exc", "KeyboardInterrupt"))
        elif kind == "disk":
            W.opens = 0
            W.disk_fault = fault["spec"]
        elif kind == "plot":
            W.draw_fault = (fault["nth"], fault["exc"])
        sys.stdout = con
        env.W_ACTIVE[0] = True
        trace = kind == "interrupt" or fault == "count"
        try:
            try:
                if trace:
                    gc.disable()        # no fault may land in a collector callback
                    sys.settrace(clk.tracer)
                try:
                    v = fn()
                finally:
                    if trace:
                        sys.settrace(None)
                        gc.enable()
                out = Outcome("ok", v)
            except Violation:
                raise
            except BaseException as e:  # noqa: BLE001 - the library may be interrupted anywhere
                out = Outcome("error", exc=e)
        finally:
            sys.stdout = old
            env.W_ACTIVE[0] = False
            W.solver_fault = None
            W.disk_fault = W.draw_fault = None
        out.fired = W.fired[nf:]
        out.out = W.last_console = con.text()
        out.lines = clk.count
        self.sim_lines += clk.count
        if out.kind == "error" and (out.fired or getattr(out.exc, "simulated", False)):
            out.kind = "fault"
        self.log(label, out.kind, type(out.exc).__name__ if out.exc is not None else "-", ",".join(out.fired))
        return out

    def must(self, fn, label, fault=None, cls="unexpected-error"):
        """A fault-free call must return; a faulted call may raise (returns None, False)."""
        o = self.call(fn, fault, label)
        if o.kind == "error":
            tb = traceback.extract_tb(o.exc.__traceback__)
            where = ""
            for fr in reversed(tb):
                if repo_frame(fr.filename):
                    where = " at %s:%s" % (fr.filename.split("/")[-1], fr.name)
                    break
            self.fail(cls, "%s raised %s: %s%s" % (label, type(o.exc).__name__, str(o.exc)[:200], where))
        return o

    # -- caller threads ---------------------------------------------------
    def threads(self, fns, schedule):
        """Run fns as caller threads under a fully determined interleaving.

        schedule: list of [thread, lines]; the running thread executes that many
        library lines, then the next entry runs. After the list is used up the
        remaining threads run to completion in index order.
        Returns a list of Outcomes.
        """
        n = len(fns)
        s = _Sched(n, schedule)
        res = [None] * n
        con = SimConsole()
        old = sys.stdout
        sys.stdout = con
        env.W_ACTIVE[0] = True

        def body(i):
            s.sems[i].acquire()
            try:
                sys.settrace(s.make_tracer(i))
                try:
                    v = fns[i]()
                    sys.settrace(None)
                    res[i] = Outcome("ok", v)
                finally:
                    sys.settrace(None)
            except BaseException as e:  # noqa: BLE001
                res[i] = Outcome("error", exc=e)
            finally:
                s.finish(i)

        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        try:
            for t in ts:
                t.start()
            s.kick()
            for t in ts:
                t.join(timeout=600)
                if t.is_alive():
                    raise HarnessError("simulated thread did not finish")
        finally:
            sys.stdout = old
            env.W_ACTIVE[0] = False
        self.nops += n
        self.nthreads_switches += s.switches
        self.sim_lines += s.total
        self.interleavings.add(s.signature())
        self.probe("thread_switches", s.switches)
        self.log("threads", n, "switches", s.switches, s.signature(),
                 ",".join(o.kind + ":" + type(o.exc).__name__ for o in res))
        return res


PREEMPT = {dis.opmap[o] for o in ("CALL", "CALL_FUNCTION_EX", "RESUME", "JUMP_BACKWARD") if o in dis.opmap}
_CODE = {}


def _code_of(c):
    if c not in _CODE:
        _CODE[c] = c.co_code
    return _CODE[c]


class _Sched:
    def __init__(self, n, schedule):
        self.n = n
        # a leading [-1, 0] entry counts the interpreter's switch points instead of source lines
        self.opcodes = bool(schedule) and schedule[0][0] == -1
        self.queue = [list(x) for x in schedule if x[0] >= 0]
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.left = 0
        self.cur = None
        self.switches = 0
        self.total = 0
        self.trace = hashlib.sha256()

    def signature(self):
        return self.trace.hexdigest()[:12]

    def _next(self):
        while self.queue:
            t, k = self.queue.pop(0)
            t %= self.n
            if self.alive[t]:
                return t, max(1, k)
        for t in range(self.n):
            if self.alive[t]:
                return t, None
        return None, None

    def kick(self):
        t, k = self._next()
        self.cur, self.left = t, k
        self.sems[t].release()

    def step(self, i, frame):
        if self.left is not None and frame.f_lineno is not None:
            self.left -= 1
            if self.left <= 0:
                self.switch(i, frame)

    def make_tracer(self, i):
        def count():
            self.total += 1
            if self.total > LINE_BUDGET:
                raise Violation("liveness", "library line budget exceeded")

        def by_line(frame, event, arg):
            if event == "line":
                count()
                self.step(i, frame)
            return by_line

        def by_opcode():
            last = [None]

            def local(frame, event, arg):
                if event == "line":
                    count()
                elif event == "opcode":
                    # the interpreter offers a switch only after calls and at loop ends
                    prev, last[0] = last[0], _code_of(frame.f_code)[frame.f_lasti]
                    if prev in PREEMPT:
                        self.step(i, frame)
                return local

            return local

        def tracer(frame, event, arg):
            if not repo_frame(frame.f_code.co_filename):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                return by_opcode()
            return by_line

        return tracer

    def switch(self, i, frame):
        t, k = self._next()
        self.left = k
        if t is None or t == i:
            return
        self.switches += 1
        self.trace.update(("%d>%d@%s:%d;" % (i, t, frame.f_code.co_name, frame.f_lineno)).encode())
        self.cur = t
        self.sems[t].release()
        self.sems[i].acquire()

    def finish(self, i):
        self.alive[i] = False
        t, k = self._next()
        if t is None:
            return
        self.cur, self.left = t, k
        self.sems[t].release()


# ---------------------------------------------------------------- utilities
def fr(x):
    """JSON-able exact number."""
    return str(F(x))


def un(x):
    return F(x)


def rng_for(seed, idx):
    h = hashlib.sha256(("%d/%d" % (seed, idx)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def execute(workload, case):
    """Run one case in this process. Returns a JSON-able result."""
    W.reset(int(case.get("addr", 0)))
    random.seed(12345)
    e = Env(case)
    res = {"violation": None}
    try:
        workload.run(case, e)
    except Violation as v:
        res["violation"] = [v.cls, v.msg]
    except HarnessError:
        raise
    except Exception as x:  # noqa: BLE001 - the oracle could not even read the library's answer
        tb = traceback.extract_tb(x.__traceback__)
        at = ["%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in tb][-4:]
        res["violation"] = ["malformed-answer", "the oracle could not read the library's answer: %s: %s (%s)" % (
            type(x).__name__, str(x)[:200], " < ".join(reversed(at)))]
    res["digest"] = hashlib.sha256("\n".join(e.events).encode()).hexdigest()[:20]
    res["nops"] = e.nops
    res["fired"] = list(W.fired)
    res["states"] = sorted(hashlib.sha256(s.encode()).hexdigest()[:12] for s in e.states)
    res["probes"] = e.probes
    res["switches"] = e.nthreads_switches
    res["sim_lines"] = e.sim_lines
    res["clock"] = W.clock - 1_000_000.0
    res["inter"] = sorted(e.interleavings)
    res["nontrivial"] = bool(e.probes.get("nontrivial"))
    res["tail"] = e.events[-12:]
    res["nevents"] = len(e.events)
    return res


def dumps(o):
    return json.dumps(o, sort_keys=True, separators=(",", ":"))
