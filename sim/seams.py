"""The seams: every source of nondeterminism or failure tensap depends on.

Must be imported before tensap, because several tensap modules bind
``np.random.rand``, ``randn`` or ``random.shuffle`` by name at import time.

Seams
-----
* randomness   numpy.random.*, random.shuffle  (class SimRandom)
* kernels      numpy.linalg.*                  (class Kernels)
* source line  sys.monitoring LINE events in the tensap package (class Lines):
               interruption, failing allocation, step budget, thread switches
* threads      real threads, one released at a time (class Scheduler); locks
               taken by the library are cooperative (class SimLock)

Nothing in /repo is modified: all seams are installed from outside.
"""
import linecache
import os
import random as _pyrandom
import sys
import threading

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "tensap") + os.sep


# --------------------------------------------------------------------------
# exceptions injected by the simulator
class SimInterrupt(KeyboardInterrupt):
    """A simulated Ctrl-C at an arbitrary source line."""


class SimAllocError(MemoryError):
    """A simulated failing allocation at an arbitrary source line."""


class SimKernelError(np.linalg.LinAlgError):
    """A simulated failure of a numerical kernel."""


class BudgetExceeded(BaseException):
    """The step (or draw) budget of a run is exhausted: no progress."""


# --------------------------------------------------------------------------
class SimRandom:
    """All random draws of the library come from here.

    mode 'real'         a RandomState seeded by the case (and Python's random)
    mode 'adversarial'  with probability p each draw is replaced by an extreme
                        but legal value of the same law
    """

    NAMES = ["rand", "randn", "random", "random_sample", "uniform", "normal",
             "standard_normal", "randint", "choice", "permutation", "shuffle"]

    def __init__(self):
        self.orig = {n: getattr(np.random, n) for n in self.NAMES}
        self.orig_shuffle = _pyrandom.shuffle
        self.orig_rng = np.random.default_rng
        self.reset()
        self.installed = False

    def reset(self):
        self.adv = None          # python Random deciding adversarial draws
        self.p = 0.0
        self.draws = 0           # number of calls
        self.extreme = 0         # how many adversarial values were given
        self.budget = None
        self.record = None       # list of (name, args, value) when recording
        self.counts = {}

    def install(self):
        if self.installed:
            return
        self.installed = True
        for n in self.NAMES:
            setattr(np.random, n, self._wrap(n))
        np.random.default_rng = self._default_rng
        _pyrandom.shuffle = self._shuffle

    # -- control
    def seed(self, s):
        np.random.seed(s % (2 ** 32))
        _pyrandom.seed(s)

    def get_state(self):
        return (np.random.get_state(), _pyrandom.getstate())

    def set_state(self, st):
        np.random.set_state(st[0])
        _pyrandom.setstate(st[1])

    def state_digest(self):
        import hashlib
        st = np.random.get_state()
        h = hashlib.sha256(st[1].tobytes() + repr((st[2], st[3], st[4])).encode())
        h.update(repr(_pyrandom.getstate()).encode())
        return h.hexdigest()[:16]

    # -- wrappers
    def _tick(self, name):
        self.draws += 1
        self.counts[name] = self.counts.get(name, 0) + 1
        if self.budget is not None and self.draws > self.budget:
            raise BudgetExceeded("draw budget of %d exhausted" % self.budget)

    def _wrap(self, name):
        fn = self.orig[name]

        def wrapper(*args, **kwargs):
            self._tick(name)
            value = fn(*args, **kwargs)
            if self.adv is not None and self.adv.random() < self.p:
                value = self._extreme(name, args, kwargs, value)
                self.extreme += 1
            if self.record is not None:
                self.record.append((name, value))
            return value

        wrapper.__name__ = name
        return wrapper

    def _default_rng(self, seed=None):
        self._tick("default_rng")
        if seed is None:
            seed = int(self.orig["randint"](0, 2 ** 31 - 1))
        return self.orig_rng(seed)

    def _shuffle(self, x, *args):
        self._tick("py_shuffle")
        self.orig_shuffle(x, *args)
        if self.adv is not None and self.adv.random() < self.p:
            self.extreme += 1
            x.sort()
            if self.adv.random() < 0.5:
                x.reverse()

    def _fill(self, value, lo, hi):
        """Replace entries of value by lo or hi."""
        r = self.adv
        if np.ndim(value) == 0:
            return type(value)(lo if r.random() < 0.5 else hi)
        out = np.array(value)
        flat = out.reshape(-1)
        which = r.random()
        for i in range(flat.size):
            if which < 0.25:
                flat[i] = lo
            elif which < 0.5:
                flat[i] = hi
            elif r.random() < 0.5:
                flat[i] = lo if r.random() < 0.5 else hi
        return out

    def _extreme(self, name, args, kwargs, value):
        r = self.adv
        one = float(np.nextafter(1.0, 0.0))
        if name in ("rand", "random", "random_sample"):
            return self._fill(value, 0.0, one)
        if name == "uniform":
            lo = args[0] if len(args) > 0 else kwargs.get("low", 0.0)
            hi = args[1] if len(args) > 1 else kwargs.get("high", 1.0)
            if np.ndim(lo) or np.ndim(hi):
                return value
            return self._fill(value, lo, lo + (hi - lo) * one)
        if name in ("randn", "standard_normal"):
            return self._fill(value, -8.0, 8.0)
        if name == "normal":
            return value
        if name == "randint":
            low = args[0] if len(args) > 0 else kwargs.get("low")
            high = args[1] if len(args) > 1 else kwargs.get("high")
            if high is None:
                low, high = 0, low
            if np.ndim(low) or np.ndim(high):
                return value
            return self._fill(value, int(low), int(high) - 1)
        if name == "permutation":
            out = np.array(value)
            if out.size == 0:
                return value
            order = np.argsort(out.reshape(len(out), -1)[:, 0], kind="stable")
            out = out[order]
            return out if r.random() < 0.5 else out[::-1].copy()
        if name == "choice":
            a = args[0] if args else kwargs.get("a")
            p = kwargs.get("p", args[3] if len(args) > 3 else None)
            size = kwargs.get("size", args[1] if len(args) > 1 else None)
            replace = kwargs.get("replace", args[2] if len(args) > 2 else True)
            if size is not None and not replace:
                return value
            a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
            ok = np.nonzero(np.asarray(p) > 0)[0] if p is not None else \
                np.arange(len(a))
            if len(ok) == 0:
                return value
            if size is not None:
                pick = [a[ok[0]], a[ok[-1]]]
                which = r.random()
                idx = [0 if which < 0.25 else 1 if which < 0.5 else
                       r.randrange(2) for _ in range(int(np.prod(size)))]
                return np.array([pick[i] for i in idx]).reshape(size)
            return a[ok[0]] if r.random() < 0.5 else a[ok[-1]]
        return value


# --------------------------------------------------------------------------
class Kernels:
    """numpy.linalg entry points, made to fail at the k-th call."""

    NAMES = ["svd", "qr", "solve", "inv", "lstsq", "pinv", "cholesky", "eig",
             "eigh", "matrix_rank", "cond", "slogdet", "det", "eigvals",
             "eigvalsh"]

    def __init__(self):
        self.orig = {n: getattr(np.linalg, n) for n in self.NAMES}
        self.installed = False
        self.reset()

    def reset(self):
        self.active = False
        self.calls = 0
        self.fail_at = frozenset()     # call indexes (0-based)
        self.fail_names = frozenset()  # every call to these fails
        self.fired = []
        self.trace = None

    def install(self):
        if self.installed:
            return
        self.installed = True
        for n in self.NAMES:
            setattr(np.linalg, n, self._wrap(n))

    def _wrap(self, name):
        fn = self.orig[name]

        def wrapper(*args, **kwargs):
            if self.active and _called_from_pkg():
                k = self.calls
                self.calls += 1
                if self.trace is not None:
                    self.trace.append(name)
                if k in self.fail_at or name in self.fail_names:
                    self.fired.append((k, name))
                    raise SimKernelError("simulated failure of %s" % name)
            return fn(*args, **kwargs)

        wrapper.__name__ = name
        return wrapper

    def arm(self, fail_at=(), fail_names=(), trace=False):
        self.active = True
        self.calls = 0
        self.fail_at = frozenset(fail_at)
        self.fail_names = frozenset(fail_names)
        self.fired = []
        self.trace = [] if trace else None

    def disarm(self):
        self.active = False
        return self.fired


def _called_from_pkg():
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(PKG)


# --------------------------------------------------------------------------
class Lines:
    """Source-line events of the tensap package, through sys.monitoring.

    Only code objects whose file lies in the package are instrumented; numpy
    and scipy run at full speed and are atomic to the simulator.
    """

    TOOL = 3

    def __init__(self):
        self.mon = sys.monitoring
        self.on = False
        self.codes = []
        self.reset()

    def reset(self):
        self.count = 0
        self.fire_at = None
        self.exc = None
        self.fired = None
        self.callback = None
        self.total = 0
        self.total_budget = None
        self.armed = False

    def install(self):
        import types
        mods = [m for n, m in list(sys.modules.items())
                if (n == "tensap" or n.startswith("tensap.")) and m is not None]
        seen = set()
        codes = []

        def add(code):
            if code in seen or not code.co_filename.startswith(PKG):
                return
            seen.add(code)
            codes.append(code)
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    add(c)

        def visit(obj, depth=0):
            if isinstance(obj, (staticmethod, classmethod)):
                obj = obj.__func__
            if isinstance(obj, property):
                for f in (obj.fget, obj.fset, obj.fdel):
                    if f is not None:
                        visit(f, depth)
                return
            f = getattr(obj, "__wrapped__", None)
            if f is not None and f is not obj and depth < 4:
                visit(f, depth + 1)
            if isinstance(obj, types.FunctionType):
                add(obj.__code__)
                for cell in obj.__closure__ or ():
                    try:
                        if isinstance(cell.cell_contents, types.FunctionType):
                            if depth < 4:
                                visit(cell.cell_contents, depth + 1)
                    except ValueError:
                        pass
            elif isinstance(obj, type):
                if getattr(obj, "__module__", "").startswith("tensap") \
                        and depth < 4:
                    for v in list(vars(obj).values()):
                        visit(v, depth + 1)

        for m in mods:
            for v in list(vars(m).values()):
                visit(v)
        self.codes = codes
        if self.mon.get_tool(self.TOOL) is None:
            self.mon.use_tool_id(self.TOOL, "verif-sim")
        self.mon.register_callback(self.TOOL, self.mon.events.LINE, self._line)

    def _enable(self):
        if not self.on:
            self.on = True
            ev = self.mon.events.LINE
            for c in self.codes:
                self.mon.set_local_events(self.TOOL, c, ev)

    def _disable(self):
        if self.on and self.total_budget is None:
            self.on = False
            for c in self.codes:
                self.mon.set_local_events(self.TOOL, c, 0)

    def _line(self, code, line):
        if self.total_budget is not None:
            self.total += 1
            if self.total > self.total_budget:
                self.total_budget = None
                raise BudgetExceeded("step budget exhausted at %s:%s" % (
                    os.path.basename(code.co_filename), code.co_name))
        cb = self.callback
        if cb is not None:
            cb(code, line)
            return
        if not self.armed:
            return
        k = self.count
        self.count = k + 1
        if k == self.fire_at:
            if linecache.getline(code.co_filename, line).lstrip().startswith(
                    "with "):
                # leaving the block visits this line again, before __exit__:
                # CPython's own gap, which no library can close
                self.fire_at = k + 1
                return
            self.fired = (os.path.basename(code.co_filename), code.co_name, line)
            raise self.exc("simulated at %s:%s" % (code.co_name, line))

    def start(self, fire_at=None, exc=None):
        self.count = 0
        self.fired = None
        self.fire_at = fire_at
        self.exc = exc
        self.callback = None
        self.armed = True
        self._enable()

    def stop(self):
        """Stop counting. The events stay on until off(): toggling is slow."""
        self.armed = False
        self.fire_at = None
        return self.count

    def off(self):
        self.armed = False
        self.callback = None
        self.total_budget = None
        self._disable()


# --------------------------------------------------------------------------
class Scheduler:
    """Caller threads, real but parked; exactly one runs at any instant.

    Every thread has a list of calls. The baton may change hands only at a
    source line of the package (a scheduling point) or when a caller has
    finished. ``plan[(thread, call)]`` is a list of [line, what, target]: when
    that call of that thread has executed that many lines, the baton goes to
    the target ("switch"), or the call dies there ("kill").
    """

    def __init__(self, lines, calls, plan, budget=2_000_000):
        self.lines = lines
        self.calls = calls
        self.plan = {k: sorted(v) for k, v in plan.items()}
        self.n = len(calls)
        self.sems = [threading.Semaphore(0) for _ in calls]
        self.done = [False] * self.n
        self.steps = 0
        self.cur = 0
        self.taken = []       # (steps, from, to, where)
        self.killed = []      # (thread, call, where)
        self.index = {}
        self.pos = [None] * self.n      # (call, lines so far)
        self.results = [[None] * len(c) for c in calls]
        self.all_done = threading.Semaphore(0)
        self.budget = budget
        self.error = None

    def _line(self, code, line):
        me = self.index.get(threading.get_ident())
        if me is None or self.pos[me] is None:
            return
        if me != self.cur:                  # resumed by the watchdog's help
            self.sems[me].acquire()
        self.steps += 1
        if self.steps > self.budget:
            self.error = "step budget of %d exhausted" % self.budget
            raise BudgetExceeded(self.error)
        call, k = self.pos[me]
        self.pos[me] = (call, k + 1)
        todo = self.plan.get((me, call))
        while todo and todo[0][0] <= k:
            _, what, target = todo.pop(0)
            where = "%s:%s" % (code.co_name, line)
            if what == "kill":
                if linecache.getline(code.co_filename, line).lstrip(
                        ).startswith("with "):
                    todo.insert(0, [k + 1, what, target])
                    break
                self.killed.append((me, call, where))
                raise SimAllocError("simulated at %s" % where)
            target %= self.n
            if target == me or self.done[target]:
                continue
            self.taken.append((self.steps, me, target, where))
            self._hand(me, target)

    def _hand(self, me, target):
        self.cur = target
        self.sems[target].release()
        self.sems[me].acquire()

    def blocked(self):
        """The running thread cannot go on: another one has to."""
        me = self.index.get(threading.get_ident())
        if me is None:
            return False
        rest = [j for j in range(self.n) if not self.done[j] and j != me]
        if not rest:
            return False
        self.steps += 1
        if self.steps > self.budget:
            self.error = "the callers block each other"
            raise BudgetExceeded(self.error)
        self._hand(me, min(rest, key=lambda t: (t - me) % self.n))
        return True

    def _body(self, i):
        self.sems[i].acquire()
        for j, fn in enumerate(self.calls[i]):
            self.pos[i] = (j, 0)
            try:
                self.results[i][j] = ("value", fn())
            except BaseException as e:      # recorded, never swallowed
                self.results[i][j] = ("raised", e)
            self.pos[i] = None
        self.done[i] = True
        rest = [j for j in range(self.n) if not self.done[j]]
        if rest:
            j = min(rest, key=lambda t: (t - i) % self.n)
            self.cur = j
            self.sems[j].release()
        else:
            self.all_done.release()

    def run(self, first=0):
        global ACTIVE
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True)
               for i in range(self.n)]
        for i, t in enumerate(ths):
            t.start()
            self.index[t.ident] = i
        self.lines.callback = self._line
        self.lines._enable()
        ACTIVE = self
        try:
            self.cur = first % self.n
            self.sems[self.cur].release()
            last, idle = -1, 0
            while not self.all_done.acquire(timeout=5):
                # a caller waits for something this seam does not know
                idle = idle + 1 if self.steps == last else 0
                last = self.steps
                if idle >= 1:
                    rest = [j for j in range(self.n) if not self.done[j]
                            and j != self.cur]
                    if not rest or idle > 30:
                        self.error = "the callers wait for each other"
                        break
                    self.cur = rest[idle % len(rest)]
                    self.sems[self.cur].release()
            else:
                for t in ths:
                    t.join(60)
        finally:
            self.lines.callback = None
            ACTIVE = None
        return self


ACTIVE = None                 # the scheduler of the run, if any


class SimLock:
    """A lock of the library: a caller that would block hands over instead."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.real = _LOCK()
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.reentrant and self.owner == me:
            self.count += 1
            return True
        while not self.real.acquire(False):
            if not blocking:
                return False
            if ACTIVE is None or not ACTIVE.blocked():
                if timeout is not None and timeout >= 0:
                    return self.real.acquire(True, timeout)
                self.real.acquire()
                break
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.reentrant and self.owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            self.real.release()

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()

    def locked(self):
        return self.real.locked()

    def __deepcopy__(self, memo):            # like a lock: cannot be copied
        raise TypeError("cannot pickle '_thread.lock' object")


_LOCK, _RLOCK = threading.Lock, threading.RLock


def _lock_factory(real, reentrant):
    def factory(*args, **kwargs):
        if sys._getframe(1).f_code.co_filename.startswith(PKG):
            return SimLock(reentrant)
        return real(*args, **kwargs)
    return factory


# --------------------------------------------------------------------------
RANDOM = SimRandom()
KERNELS = Kernels()
LINES = Lines()


def boot():
    """Install the seams and import tensap. Returns the tensap module."""
    RANDOM.install()
    KERNELS.install()
    threading.Lock = _lock_factory(_LOCK, False)
    threading.RLock = _lock_factory(_RLOCK, True)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import tensap
    assert os.path.abspath(tensap.__file__).startswith(REPO), tensap.__file__
    LINES.install()
    return tensap
