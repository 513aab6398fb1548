"""Cases, contexts, snapshots, single-case execution and minimisation."""
import copy
import hashlib
import json
import random
import signal
import traceback

import numpy as np

from . import seams
from .seams import (RANDOM, KERNELS, LINES, BudgetExceeded, SimInterrupt,
                    SimAllocError, SimKernelError)

tensap = seams.boot()


class Violation(Exception):
    """The property does not hold. ``cls`` is the stable violation class."""

    def __init__(self, cls, msg=""):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------------
# canonical bytes of any value: used for event digests and snapshots

_ATTRS = {
    "FullTensor": ["data", "is_orth", "orth_dim"],
    "DiagonalTensor": ["data", "order", "shape", "is_orth"],
    "CanonicalTensor": ["core", "space", "order", "shape", "is_orth"],
    "SparseTensor": ["data", "order", "indices", "shape"],
    "TreeBasedTensor": ["tensors", "ranks", "shape", "order", "tree",
                        "is_orth", "is_active_node", "orth_node"],
    "MultiIndices": ["array"],
    "Truncator": ["tolerance", "max_rank", "thresholding_type",
                  "thresholding_parameter", "_hsvd_type"],
}


def snap(x, depth=0, seen=None):
    """A comparable picture of the public state of a value."""
    if depth > 14:
        return ("deep",)
    if x is None or isinstance(x, (bool, str, bytes)):
        return ("v", x)
    if isinstance(x, (int, float, complex)):
        return ("n", repr(x))
    if isinstance(x, np.generic):
        return ("n", repr(x.item()))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("O", x.shape) + tuple(
                snap(v, depth + 1, seen) for v in x.reshape(-1).tolist())
        return ("A", x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(v, depth + 1, seen) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple(
            (str(k), snap(v, depth + 1, seen)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted(map(repr, x)))
    if isinstance(x, random.Random):
        return ("rng",)
    seen = seen or ()
    if id(x) in seen:
        return ("cycle",)
    seen = seen + (id(x),)
    name = type(x).__name__
    mod = type(x).__module__ or ""
    if callable(x) and not mod.startswith("tensap"):
        return ("F", getattr(x, "__name__", name))
    if name == "DimensionTree":
        return ("obj", name) + tuple(
            (a, snap(getattr(x, a, None), depth + 1, seen)) for a in
            ["dim2ind", "adjacency_matrix", "plot_options", "nb_nodes",
             "arity", "root", "is_leaf", "sibling", "level",
             "internal_nodes", "nodes_parent_of_leaves", "dims",
             "nodes_indices", "_children", "_parent", "_child_number"]
            if hasattr(x, a))
    if name in _ATTRS:
        return ("obj", name) + tuple(
            (a, snap(getattr(x, a, None), depth + 1, seen))
            for a in _ATTRS[name])
    if mod.startswith("scipy.sparse"):
        return ("sp", name, snap(x.toarray(), depth + 1, seen))
    if hasattr(x, "__dict__"):
        return ("obj", name) + tuple(
            (k, snap(v, depth + 1, seen))
            for k, v in sorted(vars(x).items()) if not k.startswith("_"))
    return ("?", name)


def diff(a, b, path=""):
    """Path of the first difference between two snapshots ('' if none)."""
    if type(a) is not type(b):
        return path or "."
    if isinstance(a, tuple):
        if a[:1] == ("A",) and b[:1] == ("A",):
            return "" if a == b else (path or ".")
        if len(a) != len(b):
            return (path or ".") + "#len"
        if len(a) == 2 and isinstance(a[0], str) and a[0] == b[0] \
                and a[0] not in ("v", "n"):
            return diff(a[1], b[1], path + "." + a[0])
        for i, (u, v) in enumerate(zip(a, b)):
            d = diff(u, v, path if i == 0 else path + "[%d]" % (i - 1))
            if d:
                return d
        return ""
    return "" if a == b else (path or ".")


def digest_of(x):
    return hashlib.sha256(repr(snap(x)).encode()).hexdigest()[:16]


# --------------------------------------------------------------------------
class Ctx:
    """What a run records. Logging draws nothing and reads no clock."""

    def __init__(self, case):
        self.case = case
        self.h = hashlib.sha256()
        self.events = 0
        self.steps = 0            # simulated time: source lines + operations
        self.faults = {}          # kind -> times fired
        self.planned = {}         # kind -> times configured
        self.probes = {}          # rare conditions reached
        self.ops = {}             # operation -> times completed
        self.sig = []             # coarse run signature (distinctness)
        self.trace = None         # human-readable event log on replay
        self.config = "fault-free"

    def log(self, *items):
        self.events += 1
        for it in items:
            self.h.update(repr(snap(it)).encode())
        if self.trace is not None:
            self.trace.append(" ".join(_short(i) for i in items))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def plan(self, kind, n=1):
        self.planned[kind] = self.planned.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def op(self, name, n=1):
        self.ops[name] = self.ops.get(name, 0) + n

    def mark(self, *items):
        self.sig.append(tuple(items))

    def check(self, cond, cls, msg=""):
        if not cond:
            raise Violation(cls, msg)

    # -- running code under a fault -----------------------------------------
    def measure(self, fn):
        """Source lines and kernel calls of fn(), run fault-free.

        fn must work on copies. The random state is restored afterwards.
        """
        st = RANDOM.get_state()
        KERNELS.arm(trace=True)
        LINES.start()
        err = None
        try:
            fn()
        except BudgetExceeded:
            raise
        except Exception as e:
            err = e
        finally:
            n = LINES.stop()
            names = list(KERNELS.trace)
            KERNELS.disarm()
            RANDOM.set_state(st)
        return n, names, err

    def faulty(self, fault, fn, nlines, kernels):
        """Run fn() under one fault. Returns (result, exception, fired)."""
        kind = fault["kind"]
        self.plan(kind)
        if kind in ("interrupt", "alloc"):
            exc = SimInterrupt if kind == "interrupt" else SimAllocError
            at = int(fault["at"] * max(nlines, 1)) if nlines else 0
            at = min(at, max(nlines - 1, 0))
            LINES.start(fire_at=at, exc=exc)
            try:
                res, err = fn(), None
            except (SimInterrupt, SimAllocError) as e:
                res, err = None, e
            except Exception as e:
                res, err = None, e
            finally:
                n = LINES.stop()
            self.steps += n
            fired = LINES.fired
            if fired:
                self.fault(kind)
                self.log("fault", kind, fired[1])
            return res, err, fired
        if kind in ("kernel", "kernels"):
            if kind == "kernel":
                if not kernels:
                    KERNELS.arm()
                else:
                    k = min(int(fault["at"] * len(kernels)), len(kernels) - 1)
                    KERNELS.arm(fail_at=[k])
            else:
                KERNELS.arm(fail_names=[fault.get("name", "solve")])
            try:
                res, err = fn(), None
            except Exception as e:
                res, err = None, e
            finally:
                fired = KERNELS.disarm()
            if fired:
                self.fault("kernel:" + fired[0][1])
                self.log("fault", kind, fired[0][1])
            return res, err, fired
        raise HarnessError("unknown fault kind %r" % kind)


def _short(i):
    if isinstance(i, np.ndarray):
        return "array%s" % (i.shape,)
    s = repr(i)
    return s if len(s) < 120 else s[:117] + "..."


UNREADABLE = (ArithmeticError, AssertionError, AttributeError, LookupError,
              TypeError, ValueError, NotImplementedError, RecursionError)


# --------------------------------------------------------------------------
def _alarm(signum, frame):
    raise BudgetExceeded("wall watchdog")


def run_case(mod, case, trace=False, budget=None, wall=None):
    """Execute one case. Returns an outcome dict."""
    ctx = Ctx(case)
    if trace:
        ctx.trace = []
    RANDOM.reset()
    KERNELS.reset()
    LINES.reset()
    RANDOM.budget = getattr(mod, "DRAW_BUDGET", 200_000)
    RANDOM.seed(case["seed"])
    saved_err = np.geterr()
    np.seterr(all="ignore")
    out = {"status": "ok", "cls": None, "msg": None}
    old = None
    if wall:
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, wall)
    try:
        try:
            if budget:
                LINES.total_budget = budget
                LINES._enable()
            mod.run(case, ctx)
        except Violation as v:
            out.update(status="violation", cls=v.cls, msg=str(v.msg)[:2000])
        except BudgetExceeded as e:
            if str(e).startswith("wall"):
                out.update(status="hang", cls="wall", msg=str(e))
            else:
                out.update(status="violation", cls="no-progress", msg=str(e))
        except (Exception, KeyboardInterrupt) as e:
            msg = "".join(traceback.format_exc())[-3000:]
            if isinstance(e, UNREADABLE) and "Harness" not in type(e).__name__:
                # what the library returned cannot be read by the oracle, or
                # the library failed while it was read
                out.update(status="violation",
                           cls="unreadable:" + type(e).__name__, msg=msg)
            else:
                out.update(status="harness", cls=type(e).__name__, msg=msg)
        finally:
            if wall:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
    finally:
        LINES.off()
        KERNELS.disarm()
        np.seterr(**saved_err)
    draws = RANDOM.draws
    if RANDOM.extreme:
        ctx.fault("extreme-draw", RANDOM.extreme)
    RANDOM.reset()
    out.update(digest=ctx.h.hexdigest(), events=ctx.events, steps=ctx.steps,
               draws=draws, faults=ctx.faults, planned=ctx.planned,
               probes=ctx.probes, ops=ctx.ops, config=ctx.config,
               sig=hashlib.sha256(repr(ctx.sig).encode()).hexdigest()[:16]
               if ctx.sig else None)
    if trace:
        out["trace"] = ctx.trace
    return out


def same_failure(a, b):
    return a["status"] == b["status"] and a["cls"] == b["cls"]


# --------------------------------------------------------------------------
def _candidates(mod, case):
    """Simpler cases, most drastic first."""
    for key in ("faults", "ops", "switches"):
        lst = case.get(key)
        if not lst:
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                c = copy.deepcopy(case)
                c[key] = lst[:i] + lst[i + size:]
                yield c
            size //= 2
    extra = getattr(mod, "simplify", None)
    if extra is not None:
        for c in extra(copy.deepcopy(case)):
            yield c


def minimise(mod, case, outcome, seconds=45, runner=None):
    """Greedy delta-debugging that preserves the violation class."""
    import time
    t0 = time.monotonic()          # bounds the search only, not the runs
    runner = runner or (lambda c: run_case(mod, c, wall=60))
    best, best_out = case, outcome
    tried = 0
    progress = True
    while progress and time.monotonic() - t0 < seconds:
        progress = False
        for cand in _candidates(mod, best):
            if time.monotonic() - t0 > seconds:
                break
            tried += 1
            o = runner(cand)
            if same_failure(o, best_out):
                best, best_out = cand, o
                progress = True
                break
    return best, best_out, tried


def case_seed(base, prop, i):
    h = hashlib.sha256(("%s/%s/%d" % (base, prop, i)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def dump(obj, path):
    with open(path, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
