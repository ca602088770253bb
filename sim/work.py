"""Base class of the simulated workloads and shared generators."""
from fractions import Fraction as F

from core import HarnessError, Violation, fr, un  # noqa: F401
import env  # noqa: F401
import hypotheses as HY
import reference as RF_


class Workload:
    pid = "?"
    cases = {"quick": 400, "thorough": 8000}
    shrink_lists = ["ops", "schedule"]
    rule = ""
    state_measure = "hash of (operation kind, outcome kind, abstract state of the objects involved)"
    real = []
    stubs = []
    assumptions = []

    def generate(self, rng, tier):
        raise NotImplementedError

    def run(self, case, e):
        raise NotImplementedError

    def simplify(self, case):
        return []


# ------------------------------------------------------------------- faults
def gen_interrupt(rng, hi):
    """An interruption at a log-uniformly drawn library line of the operation."""
    import math

    n = int(math.exp(rng.uniform(0, math.log(max(2, hi)))))
    return {"kind": "interrupt", "at": max(1, n),
            "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])}


def gen_solver(rng, whiches, hi=12):
    return {"kind": "solver", "which": rng.choice(whiches), "nth": 1 + min(hi - 1, int(rng.expovariate(0.5))),
            "exc": rng.choice(["RuntimeError", "MemoryError", "KeyboardInterrupt"])}


def gen_console(rng, hi=4):
    return {"kind": "console", "nth": rng.randint(1, hi), "errno": rng.choice([32, 28, 5])}


def gen_schedule(rng, n, total, mean):
    """An explicit interleaving: [thread, library lines or switch points] entries."""
    out = []
    if rng.random() < 0.4:
        out.append([-1, 0])             # switch after calls and at loop ends, not between lines
        total, mean = total * 3, mean * rng.choice([1, 2, 4])
    left = total
    while left > 0 and len(out) < 400:
        k = 1 + int(rng.expovariate(1.0 / mean))
        out.append([rng.randrange(n), k])
        left -= k
    return out


# --------------------------------------------------------------- references
REF_KINDS = ["lit", "lit", "lit", "lit", "unknown", "classical", "derived", "derived_unknown", "conjectured", "trivial"]


def gen_ref(rng, kinds=REF_KINDS, lo=1900, hi=2024):
    k = rng.choice(kinds)
    if k in ("lit", "derived"):
        return [k, rng.randint(lo, hi)]
    return [k, None]


def build_ref(spec):
    k, y = spec
    R = RF_.Reference
    if k == "lit":
        return R.make("Author%d" % (y % 7), y)
    if k == "unknown":
        return R("lab", "article", {"author": "Nobody"})
    if k == "classical":
        return R.classical()
    if k == "derived":
        return R.derived(y)
    if k == "derived_unknown":
        return R.derived("Unknown date")
    if k == "conjectured":
        return R.conjectured()
    if k == "trivial":
        return R.trivial()
    raise HarnessError("ref " + str(spec))


def ref_year(spec):
    k, y = spec
    if k in ("lit", "derived"):
        return y
    if k in ("unknown", "derived_unknown"):
        return "Unknown date"
    if k in ("classical", "trivial"):
        return -1
    return float("inf")


class Datum:
    """A distractor payload with value equality."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "datum %s" % self.v

    def __eq__(self, o):
        return isinstance(o, Datum) and o.v == self.v

    __hash__ = None


def names(hs):
    return sorted(h.name for h in hs)
