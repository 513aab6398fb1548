"""Pristine process that forks one child per requested execution.

python -m sim.forkserver: one JSON request per line on stdin, one JSON answer
per line on stdout. Everything is imported and nothing has been run, so that
a child is a fresh process without the price of its imports. A request lists
cases to execute in order; the last one is the target, whose outcome is
reported together with the state of the process around every call.
"""
import functools
import gc
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import types
import warnings

import numpy as np

from . import core, seams
from .core import RANDOM, digest_of, tensap

FAMILIES = ("tops", "fops", "dops", "mops", "uops")
# operations of the families that draw
DRAWING = {("dops", "random")}
# methods that never draw, whatever their arguments
NEUTRAL = ("pdf", "cdf", "icdf", "support", "truncated_support", "mean", "std",
           "variance", "moment", "gauss_integration_rule",
           "orthonormal_polynomials", "eval", "eval_derivative",
           "n_eval_derivative", "eval_iteration", "polyval", "d_polyval",
           "dn_polyval", "gram_matrix", "domain", "cardinal", "storage",
           "mass", "is_discrete", "eval_on_grid", "eval_at_indices", "norm",
           "dot", "full", "orth", "singular_values", "array", "one",
           "conditional_expectation", "coefficients")
LIMIT = 3_000_000             # source lines of one case
WALL = 100


def preload():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.endswith(".py") and f not in ("forkserver.py", "run.py", "p12.py",
                                           "worker.py", "replay.py",
                                           "__init__.py"):
            importlib.import_module("sim." + f[:-3])
    import matplotlib.pyplot  # noqa: F401
    import scipy.integrate  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.special  # noqa: F401
    import scipy.stats  # noqa: F401
    import sklearn.linear_model  # noqa: F401
    import sklearn.model_selection  # noqa: F401


class Watch:
    """Notes everything a call did to the state of the process."""

    def __init__(self):
        self.bad = []
        self.depth = 0
        self.extra = hashlib.sha256()
        self.events = []
        self.checked = 0
        self.get_np = np.random.get_state
        self.get_py = random.getstate

    def rng(self):
        a = self.get_np()
        return (a[2:], a[1].tobytes(), self.get_py())

    def note(self, cls, msg):
        if len(self.bad) < 5:
            self.bad.append([cls, msg])

    def neutral(self, what, fn):
        @functools.wraps(fn)
        def wrapper(*args, **kwargs):
            if self.depth:
                return fn(*args, **kwargs)
            self.depth += 1
            before = self.rng()
            try:
                return fn(*args, **kwargs)
            finally:
                self.depth -= 1
                self.checked += 1
                if self.rng() != before:
                    self.note("draws", "%s changed the state of the random "
                              "generators" % what)
        return wrapper

    def traced(self, fn):
        """Record the result of fn, bit for bit."""
        def wrapper(*args, **kwargs):
            try:
                res = fn(*args, **kwargs)
            except BaseException as e:
                self.extra.update(type(e).__name__.encode())
                raise
            self.extra.update(digest_of(res).encode())
            return res
        return wrapper

    # -- installation
    def families(self):
        for f in FAMILIES:
            mod = sys.modules["sim." + f]
            orig = mod.make

            def make(name, r, pool, _f=f, _o=orig):
                op = _o(name, r, pool)
                if op is not None:
                    call = op.call
                    if (_f, name) not in DRAWING:
                        call = self.neutral("%s (%s)" % (name, _f), call)
                    op.call = self.traced(call)
                return op
            mod.make = make

    def jobs(self):
        p15 = sys.modules["sim.p15"]
        for name in list(p15.MAKE):
            def make(r, bs, ctx, _o=p15.MAKE[name], _n=name):
                job = _o(r, bs, ctx)
                if job is not None and _n in ("proj", "proj_tensor", "loss",
                                              "array"):
                    job.call = self.neutral(_n, job.call)
                return job
            p15.MAKE[name] = make

    def queries(self):
        pool = sys.modules["sim.pool"]

        def attempt(q, kind):
            return q if q.draws else self.neutral("%s of %s" % (
                q.what, kind), q)
        pool.ATTEMPT = attempt

    def methods(self):
        seen = set()
        for n in dir(tensap):
            cls = getattr(tensap, n)
            if not isinstance(cls, type):
                continue
            for c in cls.__mro__:
                if not (c.__module__ or "").startswith("tensap") or c in seen:
                    continue
                seen.add(c)
                for m in NEUTRAL:
                    f = vars(c).get(m)
                    if isinstance(f, types.FunctionType):
                        setattr(c, m, self.neutral("%s.%s" % (
                            c.__name__, m), f))

    def seeding(self):
        for where, names in ((np.random, ("seed", "set_state")),
                             (random, ("seed", "setstate"))):
            for n in names:
                fn = getattr(where, n)

                def wrapper(*args, _f=fn, _n=n, **kwargs):
                    code = sys._getframe(1).f_code.co_filename
                    if code.startswith(seams.PKG):
                        self.note("reseed", "%s called %s" % (
                            os.path.basename(code), _n))
                    return _f(*args, **kwargs)
                setattr(where, n, wrapper)

    def log(self):
        orig = core.Ctx.log

        def log(ctx, *items):
            orig(ctx, *items)
            self.events.append("%s %s" % (
                items[0] if items and isinstance(items[0], str) else "-",
                ctx.h.hexdigest()[:8]))
        core.Ctx.log = log

    @staticmethod
    def ambient():
        return {"numpy error handling": dict(np.geterr()),
                "numpy error callback": repr(np.geterrcall()),
                "warning filters": [repr(f) for f in warnings.filters],
                "print options": repr(sorted(
                    (k, repr(v)) for k, v in np.get_printoptions().items()))}

    def proxy(self, mod, err):
        watch = self

        class Proxy:
            DRAW_BUDGET = getattr(mod, "DRAW_BUDGET", 200_000)

            @staticmethod
            def run(case, ctx):
                np.seterr(all=err)
                before = watch.ambient()
                try:
                    mod.run(case, ctx)
                finally:
                    after = watch.ambient()
                    for k in before:
                        if after[k] != before[k]:
                            watch.note("state", "%s changed (%s)" % (
                                k, _first(before[k], after[k])))
        return Proxy


def _first(a, b):
    if isinstance(a, dict):
        return ", ".join("%s: %s to %s" % (k, a[k], b.get(k))
                         for k in a if a[k] != b.get(k))
    return "%d to %d entries" % (len(a), len(b))


# -- ambient conditions ------------------------------------------------------
def poison():
    """Memory the library has not initialised holds garbage."""
    orig, orig_like = np.empty, np.empty_like

    def dirty(a):
        if isinstance(a, np.ndarray) and a.size:
            if a.dtype.kind == "f":
                a.fill(-1.2345e77)
            elif a.dtype.kind in "iu":
                a.fill(113)
            elif a.dtype.kind == "b":
                a.fill(True)
        return a

    def empty(*args, **kwargs):
        a = orig(*args, **kwargs)
        f = sys._getframe(1).f_code.co_filename
        return dirty(a) if f.startswith(seams.PKG) else a

    def empty_like(*args, **kwargs):
        a = orig_like(*args, **kwargs)
        f = sys._getframe(1).f_code.co_filename
        return dirty(a) if f.startswith(seams.PKG) else a
    np.empty, np.empty_like = empty, empty_like


def clock(start, step):
    """The clocks of the process: simulated, advanced by their own reading."""
    now = [float(start)]

    def read():
        now[0] += step
        return now[0]
    for n in ("time", "monotonic", "perf_counter", "process_time"):
        setattr(time, n, read)
    for n in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns"):
        setattr(time, n, lambda: int(read() * 1e9))


def entropy(key):
    """A generator that was given no seed gets entropy of the process."""
    count = [0]

    def default_rng(seed=None):
        RANDOM._tick("default_rng")
        if seed is None:
            count[0] += 1
            seed = [key, count[0]]
        return RANDOM.orig_rng(seed)
    np.random.default_rng = default_rng


# -- a child -----------------------------------------------------------------
def child(req):
    watch = Watch()
    env = req.get("env", {})
    entropy(env.get("entropy", 1))
    if env.get("memory"):
        poison()
    clock(*env.get("clock", (1.7e9, 1e-3)))
    if env.get("gc"):
        gc.set_threshold(*env["gc"])
    watch.seeding()
    if req.get("watch"):
        watch.families()
        watch.jobs()
        watch.queries()
        watch.methods()
    else:
        _trace_only(watch)
    watch.log()
    faults = {}
    n = len(req["cases"])
    for i, (prop, case) in enumerate(req["cases"]):
        mod = importlib.import_module("sim." + prop.lower())
        if i == n - 1:
            watch.extra = hashlib.sha256()
            watch.events = []
        o = core.run_case(watch.proxy(mod, env.get("err", "warn")), case,
                          budget=LIMIT if i == n - 1 else LIMIT // 3)
        for k, v in o["faults"].items():
            faults[k] = faults.get(k, 0) + v
        if o["cls"] == "no-progress":
            faults["call cut off"] = faults.get("call cut off", 0) + 1
    return {"status": o["status"], "cls": o["cls"], "msg": o["msg"],
            "digest": o["digest"], "draws": o["draws"],
            "extra": watch.extra.hexdigest()[:16],
            "rng": hashlib.sha256(repr(watch.rng()).encode()).hexdigest()[:16],
            "events": watch.events, "bad": watch.bad, "ops": o["ops"],
            "checked": watch.checked, "faults": faults}


def _trace_only(watch):
    for f in FAMILIES:
        mod = sys.modules["sim." + f]

        def make(name, r, pool, _o=mod.make):
            op = _o(name, r, pool)
            if op is not None:
                op.call = watch.traced(op.call)
            return op
        mod.make = make


def serve():
    preload()
    gc.freeze()
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    out.write("ready\n")
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(WALL)
                data = json.dumps(child(req)).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException as e:
                import traceback
                try:
                    os.write(w, json.dumps({
                        "status": "harness", "cls": type(e).__name__,
                        "msg": traceback.format_exc()[-2000:]}).encode())
                except OSError:
                    pass
                code = 1
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.write((data.decode() or '{"status": "hang"}') + "\n")
        out.flush()


if __name__ == "__main__":
    serve()
