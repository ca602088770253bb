"""Loads the real library from /repo with every nondeterministic input behind a seam.

Seams (all installed from here; nothing in /repo is edited):
  * object addresses   Hypothesis objects get a simulated, seeded identity hash, so
                       the iteration order of every set of hypotheses is drawn from
                       the run's seed rather than from the allocator.
  * interruption       sys.settrace line events in /repo frames (see core.Fault).
  * caller threads     real threads, parked and released one at a time (core.Sched).
  * solver calls       cdd.LinProg / cdd.Polyhedron / scipy ConvexHull / sympy.solve /
                       parse_expr may be told to fail on their n-th call.
  * files              open() is served from a simulated disk for simulated paths.
  * console            sys.stdout is a simulated device that can fail.
  * clock              time.time() is a simulated clock that can jump.
  * drawing            matplotlib is a recording device that can fail on any call.
"""
import builtins
import io
import os
import random
import sys
import threading
import types

REPO = os.environ.get("EXPDB_REPO", "/repo")
SRC = os.path.join(REPO, "blueprint", "src", "python")

sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)


# --------------------------------------------------------------------- stubs
class _Stub(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def _plain(v):
    """A snapshot of what was handed to the drawing device."""
    if isinstance(v, str) or v is None:
        return v
    try:
        return [_plain(x) for x in v]
    except TypeError:
        return v


def _draw(name, a, k):
    W.draws += 1
    if W.draw_fault is not None and W.draws == W.draw_fault[0]:
        exc, W.draw_fault = W.draw_fault[1], None
        W.fired.append("plot:error")
        raise make_exc(exc)
    W.plots.append((name, [_plain(x) for x in a], {n: _plain(x) for n, x in k.items()}))


class _Axes:
    """A figure or axes object of the recorded device."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: _draw(name, a, k)

    def add_patch(self, p):
        _draw("patch", [p.points], {})


class _Polygon:
    def __init__(self, points, **k):
        self.points = [tuple(p) for p in points]


class _Plot(_Stub):
    """matplotlib.pyplot as a device that records what is drawn, and can fail."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: _draw(name, a, k)

    def subplots(self, *a, **k):
        _draw("subplots", a, k)
        return _Axes(), _Axes()


def _install_stub_mpl():
    mpl = _Stub("matplotlib")
    mpl.__path__ = []
    plt = _Plot("matplotlib.pyplot")
    mpl.pyplot = plt
    patches = _Stub("matplotlib.patches")
    patches.Polygon = _Polygon
    mpl.patches = patches
    sys.modules["matplotlib"] = mpl
    sys.modules["matplotlib.pyplot"] = plt
    sys.modules["matplotlib.patches"] = patches


_install_stub_mpl()


# --------------------------------------------------------------------- world
class World:
    """Per-run simulated environment. Reset at the start of each run."""

    def __init__(self):
        self.epoch = 0
        self.reset(0)

    def reset(self, seed):
        self.epoch += 1
        self.addr = random.Random((seed << 8) ^ 0xA11)
        self.clock = 1_000_000.0
        self.clock_steps = None      # list of increments, cycled
        self.clock_reads = 0
        self.solver_calls = {}
        self.solver_fault = None     # (name, nth, exc)
        self.fired = []              # fault kinds that actually fired in this run
        self.disk = {}
        self.open_handles = 0
        self.opens = 0
        self.disk_fault = None
        self.addr_mode = "random"
        self.last_console = ""
        self.plots = []              # what was drawn, call by call
        self.draws = 0
        self.draw_fault = None

    def new_addr(self):
        # 16-byte aligned, like CPython's allocator
        return (0x7F0000000000 + self.addr.getrandbits(36)) >> 4


W = World()


class SimFault(Exception):
    """Raised by an injected solver failure."""


# ------------------------------------------------------------ solver seams
def _wrap_solver(mod, name, label):
    orig = getattr(mod, name)

    def wrapper(*a, **k):
        n = W.solver_calls.get(label, 0) + 1
        W.solver_calls[label] = n
        f = W.solver_fault
        if f is not None and f[0] == label and f[1] == n:
            W.solver_fault = None
            W.fired.append("solver:" + label)
            raise make_exc(f[2])
        return orig(*a, **k)

    wrapper.__wrapped__ = orig
    wrapper.__name__ = name
    setattr(mod, name, wrapper)
    return orig


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RuntimeError": RuntimeError,
    "SimFault": SimFault,
    "ValueError": ValueError,
    "OSError": OSError,
    "RecursionError": RecursionError,
}


def make_exc(name):
    e = EXC[name]("simulated fault")
    e.simulated = True
    return e


import cdd as _cdd
import scipy.spatial as _spatial
import sympy as _sympy
import sympy.parsing.sympy_parser as _sp

REAL_LINPROG = _cdd.LinProg
REAL_POLYHEDRON = _cdd.Polyhedron
REAL_MATRIX = _cdd.Matrix
REAL_HULL = _spatial.ConvexHull
_wrap_solver(_cdd, "LinProg", "LinProg")
_wrap_solver(_cdd, "Polyhedron", "Polyhedron")
_wrap_solver(_spatial, "ConvexHull", "ConvexHull")
_wrap_solver(_sympy, "solve", "solve")
_wrap_solver(_sp, "parse_expr", "parse_expr")

# -------------------------------------------------------------- clock seam
import time as _time

REAL_TIME = _time.time


def _sim_time():
    if not W_ACTIVE[0]:
        return REAL_TIME()
    steps = W.clock_steps or [0.001]
    W.clock += steps[W.clock_reads % len(steps)]
    W.clock_reads += 1
    return W.clock


W_ACTIVE = [False]
_time.time = _sim_time


# --------------------------------------------------------------- disk seam
class SimFile:
    """A text file on the simulated disk. Reads may be short, fail, or be torn."""

    def __init__(self, path, data, fault, newline=None):
        self.name = path
        self._b = data
        self._pos = 0
        self._fault = fault or {}
        self.closed = False
        self.reads = 0
        W.open_handles += 1
        self._epoch = W.epoch

    # fault fields: kind in {"read_error","close_error","eintr"}, nth, errno
    def _tick(self):
        self.reads += 1
        f = self._fault
        if f.get("kind") in ("read_error",) and self.reads == f.get("nth", 1):
            W.fired.append("disk:" + f["kind"])
            e = OSError(f.get("errno", 5), "simulated I/O error", self.name)
            e.simulated = True
            raise e

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, n=-1):
        self._check()
        self._tick()
        if n is None or n < 0:
            # the device serves any number of short reads below this call
            s = self._b[self._pos:]
            k = self._fault.get("fail_after")
            if k is not None and self._pos + len(s) > k:
                W.fired.append("disk:mid_read_error")
                e = OSError(self._fault.get("errno", 5), "simulated I/O error", self.name)
                e.simulated = True
                raise e
            self._pos = len(self._b)
            return s
        short = self._fault.get("short")
        if short:
            n2 = max(1, min(n, short))
            if n2 < n:
                W.fired.append("disk:short_read")
            n = n2
        s = self._b[self._pos:self._pos + n]
        k = self._fault.get("fail_after")
        if k is not None and self._pos + len(s) > k:
            W.fired.append("disk:mid_read_error")
            e = OSError(self._fault.get("errno", 5), "simulated I/O error", self.name)
            e.simulated = True
            raise e
        self._pos += len(s)
        return s

    def readline(self, n=-1):
        self._check()
        i = self._b.find("\n", self._pos)
        j = len(self._b) if i < 0 else i + 1
        if n is not None and n >= 0:
            j = min(j, self._pos + n)
        s = self._b[self._pos:j]
        if s:
            self._tick()
        k = self._fault.get("fail_after")
        if k is not None and j > k and s:
            W.fired.append("disk:mid_read_error")
            e = OSError(self._fault.get("errno", 5), "simulated I/O error", self.name)
            e.simulated = True
            raise e
        self._pos = j
        return s

    def readlines(self, hint=-1):
        out = []
        while True:
            s = self.readline()
            if not s:
                return out
            out.append(s)

    def __iter__(self):
        return self

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s

    def readable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def close(self):
        if not self.closed:
            self.closed = True
            self._drop()
            if self._fault.get("kind") == "close_error":
                W.fired.append("disk:close_error")
                e = OSError(5, "simulated close error", self.name)
                e.simulated = True
                raise e

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __del__(self):
        # like a real file object: dropping the last reference closes it
        if not self.closed:
            self.closed = True
            self._drop()

    def _drop(self):
        if self._epoch == W.epoch:
            W.open_handles -= 1


REAL_OPEN = builtins.open
SIM_PREFIX = "/simdisk/"


def _sim_open(path, *a, **k):
    p = os.fspath(path) if not isinstance(path, int) else path
    if isinstance(p, str) and p.startswith(SIM_PREFIX):
        mode = a[0] if a else k.get("mode", "r")
        W.opens += 1
        f = W.disk_fault or {}
        if f.get("kind") == "open_error" and W.opens == f.get("nth", 1):
            W.fired.append("disk:open_error")
            e = OSError(f.get("errno", 5), "simulated open error", p)
            e.simulated = True
            raise e
        if p not in W.disk:
            raise FileNotFoundError(2, "No such file or directory", p)
        if any(c in mode for c in "wax+"):
            raise PermissionError(13, "simulated disk is read-only", p)
        data = W.disk[p]
        if "b" in mode:
            return io.BytesIO(data.encode())
        return SimFile(p, data, f)
    return REAL_OPEN(path, *a, **k)


builtins.open = _sim_open
io_open_real = io.open
io.open = _sim_open


# ------------------------------------------------------------- stdout seam
class SimConsole(io.TextIOBase):
    def __init__(self):
        self.buf = []
        self.writes = 0
        self.fail_at = None
        self.errno = 32

    def writable(self):
        return True

    def write(self, s):
        self.writes += 1
        if self.fail_at is not None and self.writes == self.fail_at:
            self.fail_at = None
            W.fired.append("console:write_error")
            e = OSError(self.errno, "simulated console error")
            e.simulated = True
            raise e
        self.buf.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return "".join(self.buf)


# ----------------------------------------------------------- address seam
import hypotheses as _hyp  # noqa: E402


def _sim_hash(self):
    d = self.__dict__
    a = d.get("_sim_addr")
    if a is None:
        a = W.new_addr()
        d["_sim_addr"] = a
    return a


ADDR_SEAM = _hyp.Hypothesis.__hash__ is object.__hash__
if ADDR_SEAM:
    _hyp.Hypothesis.__hash__ = _sim_hash


def repo_frame(filename):
    return filename.startswith(SRC)
