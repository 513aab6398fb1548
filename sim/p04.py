"""P04: concurrent callers get the single-threaded results."""
import copy
import copy
import random

import numpy as np

from . import dops, fops, hist, mops, pool, seams, tops, uops
from .core import KERNELS, LINES, RANDOM, Violation, snap
from .seams import BudgetExceeded, SimAllocError

PROP = "P04"
CASES = {"quick": 5000, "thorough": 80000}
RULE = ("a case is 2-3 caller threads with 1-3 calls each on shared objects "
        "(tensors, trees, truncators, index sets, bases, functional tensors, "
        "measures, grids) and 6 schedules of them; the callers are real "
        "threads, released one at a time, and the baton changes hands at "
        "source lines of the library chosen by the case; in some schedules a "
        "caller is killed inside a call; every result is compared with the "
        "result of the same call by a lone caller on its own copy; "
        "non-trivial when a switch happened inside a call; distinct by the "
        "sequences of (function, line) at which the baton changed hands")
MEASURE = "distinct sequences of (from, to, function and line of the switch)"
REAL = ["all of tensap that the calls reach", "threads (real, one released at "
        "a time)"]
STUBS = ["thread scheduler (switches only at source lines of the library; "
         "numpy and scipy calls are atomic)", "locks created by the library"]
ASSUMPTIONS = [
    "a switch between two bytecodes of one source line, or inside a call to "
    "numpy or scipy, is not explored",
    "calls that draw random numbers are not compared: the callers share the "
    "generators"]
FAMILIES = {"tops": tops, "fops": fops, "dops": dops, "mops": mops,
            "uops": uops}
KINDS = ["basis", "basis2", "bases", "bases", "full basis", "sparse basis",
         "basis array", "functional", "functional", "functional2", "rv",
         "empirical", "lebesgue", "poly", "smooth", "product", "tensorizer",
         "grid", "rule", "problem", "tools"]
ROUNDS = 6
TOL = 1e-9
LONG = 40_000                 # lines of a call that is not scheduled


def gen(seed, tier):
    r = random.Random(seed)
    n = r.choice([2, 2, 2, 3])
    cfg = {"threads": n}
    ops = []                      # [thread, what, object, query, arguments]
    if r.random() < 0.55:
        fam = r.choice(["tops", "tops", "tops", "fops", "dops", "mops",
                        "uops", "uops"])
        cfg.update(family=fam, unary=r.choice([0.0, 0.0, 0.3]))
        names = list(FAMILIES[fam].OPS)
        if r.random() < 0.7:              # the same few operations
            names = r.sample(names, min(len(names), r.choice([1, 1, 2, 4])))
        for t in range(n):
            for _ in range(r.randint(1, 3)):
                op = [t, r.choice(names), 0, 0, r.randrange(1 << 30)]
                if t and r.random() < 0.35:
                    op = [t] + r.choice([o for o in ops if o[0] < t])[1:]
                    if r.random() < 0.5:
                        op[4] = r.randrange(1 << 30)
                ops.append(op)
    else:
        cfg["family"] = "pool"
        objs = [[r.choice(KINDS), r.randrange(1 << 30)]
                for _ in range(r.choice([1, 1, 2]))]
        duel = r.randrange(1 << 30) if r.random() < 0.4 else None
        for t in range(n):
            for _ in range(r.randint(1, 2 if duel else 4)):
                k, a = r.choice(objs)
                op = [t, k, a, duel or r.randrange(1 << 30),
                      r.randrange(1 << 30)]
                if t and r.random() < 0.5:
                    op = [t] + r.choice([o for o in ops if o[0] < t])[1:]
                    if r.random() < 0.8:
                        op[4] = r.randrange(1 << 30)
                ops.append(op)
    switches = []                 # [round, thread, call, where, what, target]
    calls = {t: sum(o[0] == t for o in ops) for t in range(n)}
    for k in range(ROUNDS):
        many = r.choice([1, 1, 2, 4, 8, 24])
        for _ in range(many):
            t = r.randrange(n)
            switches.append([k, t, r.randrange(calls[t]), round(
                r.choice([0, 1, 2]) + 0.9999 * r.random(), 5), "switch",
                r.choice([x for x in range(n) if x != t])])
        if r.random() < 0.2:
            t = r.randrange(n)
            switches.append([k, t, r.randrange(calls[t]), round(
                r.random(), 4), "kill", 0])
    cfg["first"] = [r.randrange(n) for _ in range(ROUNDS)]
    return {"seed": seed, "cfg": cfg, "ops": ops, "switches": switches}


def simplify(case):
    used = {s[0] for s in case["switches"]}
    if len(used) > 1:
        for k in sorted(used):
            yield dict(case, switches=[s for s in case["switches"]
                                       if s[0] == k])


# ------------------------------------------------------------------- worlds
def world(case):
    """Shared objects and the calls on them: {position in ops: (name, call,
    the same call on its own copy)}."""
    cfg = case["cfg"]
    out = {}
    if cfg["family"] != "pool":
        fam = FAMILIES[cfg["family"]]
        shared = fam.start(random.Random(case["seed"]), cfg)
        made = {}
        for i, (t, name, _, _, a) in enumerate(case["ops"]):
            if (name, a) not in made:
                op = fam.make(name, random.Random(a), shared)
                if op is not None and op.mutates:
                    op = None
                made[name, a] = op
            op = made[name, a]
            if op is not None:
                out[i] = (name, op.call, _copy(op))
        return out
    objs, made = {}, {}
    for i, (t, kind, a, b, c) in enumerate(case["ops"]):
        if (kind, a) not in objs:
            objs[kind, a] = pool.KINDS[kind][0](random.Random(a))
        o = objs[kind, a]
        if (kind, a, b, c) not in made:
            made[kind, a, b, c] = _query(kind, o, b, c)
        q = made[kind, a, b, c]
        out[i] = ("%s of %s" % (q.what, kind), _on(q, o),
                  _alone(kind, a, b, c))
    return out


def _on(q, o):
    return lambda: q(o)


def _query(kind, o, b, c):
    qs = [q for q in pool.KINDS[kind][1](random.Random(c), o) if not q.draws]
    return qs[random.Random(b).randrange(len(qs))]


def _alone(kind, a, b, c):
    def fn(path):
        o = pool.KINDS[kind][0](random.Random(a))
        q = _query(kind, o, b, c)
        path.start()                      # the call only
        return q(o)
    return fn


def _copy(op):
    def fn(path):
        args = copy.deepcopy(op.args)
        path.start()
        return op.fn(*args)
    return fn


class Path:
    """The source lines of a call, in order."""

    def __init__(self):
        self.n = 0
        self.sites = {}
        self.draws = RANDOM.draws

    def start(self):
        self.draws = RANDOM.draws
        LINES.start()
        LINES.callback = self

    def __call__(self, code, line):
        self.sites.setdefault((code, line), []).append(self.n)
        self.n += 1

    def position(self, at):
        """0 <= at < 1: of all lines; 1 <= at < 2: of all distinct lines,
        then of the times each was executed; 2 <= at < 3: of the distinct
        lines of the function that was called."""
        if at < 1 or not self.sites:
            return int(at * self.n)
        sites = list(self.sites)
        if at >= 2:
            at -= 1
            sites = [x for x in sites if x[0] is sites[0][0]]
        x = (at - 1) * len(sites)
        times = self.sites[sites[min(int(x), len(sites) - 1)]]
        return times[min(int((x - int(x)) * len(times)), len(times) - 1)]


# ---------------------------------------------------------------- comparison
def differs(a, b):
    """Where two snapshots differ by more than rounding ('' if nowhere)."""
    if a == b or _truth(a) is not None and _truth(a) is _truth(b):
        return ""
    if type(a) is not type(b):
        return "type"
    if isinstance(a, tuple):
        if a[:1] == ("A",) and b[:1] == ("A",):
            if a[2] != b[2]:
                return "shape %s, alone %s" % (b[2], a[2])
            x, y = (np.frombuffer(t[3], dtype=np.dtype(t[1])) for t in (a, b))
            return _close(x, y)
        if a[:1] == ("n",) and b[:1] == ("n",):
            try:
                return _close(np.array([complex(a[1])]),
                              np.array([complex(b[1])]))
            except ValueError:
                return "number"
        if len(a) != len(b):
            return "length"
        for u, v in zip(a, b):
            d = differs(u, v)
            if d:
                return d
        return ""
    return "value %r, alone %r" % (b, a)


def _truth(a):
    """True or False, of Python or of numpy."""
    return {("v", True): True, ("v", False): False, ("n", "True"): True,
            ("n", "False"): False}.get(a) if isinstance(a, tuple) and \
        len(a) == 2 and isinstance(a[1], (str, bool)) else None


def _close(x, y):
    if x.dtype.kind not in "fciub" or y.dtype.kind not in "fciub":
        return "" if np.array_equal(x, y) else "values"
    x, y = x.astype(complex), y.astype(complex)
    bad = ~((np.isnan(x) & np.isnan(y)) | (x == y))
    if not np.any(bad):
        return ""
    fin = np.isfinite(x) & np.isfinite(y)
    if np.any(bad & ~fin):
        return "a non-finite value"
    sc = max(float(np.max(np.abs(x[fin]))), 1e-300)
    err = float(np.max(np.abs(x - y)[fin]))
    return "values by %.2e (scale %.1e)" % (err, sc) if err > TOL * sc else ""


def outcome(res):
    kind, v = res
    return ("raised", type(v).__name__) if kind == "raised" else (
        "value", snap(v))


def attempt(fn):
    try:
        return ("value", fn())
    except BudgetExceeded:
        raise
    except Exception as e:
        return ("raised", e)


# ----------------------------------------------------------------------- run
def run(case, ctx):
    n = case["cfg"]["threads"]
    ctx.config = "%s/%d callers" % (case["cfg"]["family"], n)
    with hist.quiet():
        alone, lines = {}, {}
        for i, (name, _, own) in world(case).items():
            path = lines[i] = Path()
            res = attempt(lambda: own(path))
            LINES.stop()
            LINES.callback = None
            ctx.steps += path.n
            if RANDOM.draws != path.draws or path.n > LONG:
                ctx.probe("call not compared")
                continue
            alone[i] = outcome(res)
        if not alone:
            return
        used = sorted({s[0] for s in case["switches"]})
        for k in used:
            _round(case, ctx, k, n, alone, lines)
    for i in alone:
        ctx.op(case["ops"][i][1])


def _round(case, ctx, k, n, alone, lines):
    w = world(case)
    calls = [[i for i in sorted(alone) if case["ops"][i][0] == t]
             for t in range(n)]
    nth = [[i for i, o in enumerate(case["ops"]) if o[0] == t]
           for t in range(n)]
    plan = {}
    for _, t, call, at, what, target in [s for s in case["switches"]
                                         if s[0] == k]:
        if t >= n or call >= len(nth[t]) or nth[t][call] not in alone:
            continue
        i = nth[t][call]
        pos = lines[i].position(at)
        plan.setdefault((t, calls[t].index(i)), []).append([pos, what, target])
        ctx.plan(what)
    total = sum(lines[i].n for i in alone)
    s = seams.Scheduler(LINES, [[w[i][1] for i in c] for c in calls], plan,
                        budget=3 * total + 20_000)
    s.run(case["cfg"]["first"][k])
    ctx.steps += s.steps
    if s.error:
        raise Violation("blocked", "%s (alone the calls take %d lines)" % (
            s.error, total))
    ctx.fault("switch", len(s.taken))
    ctx.fault("kill", len(s.killed))
    for step, a, b, where in s.taken:
        ctx.log("switch", a, b, where.split(":")[0])
    ctx.log("schedule", k, s.steps)
    if s.taken:
        ctx.mark(k, [(a, b, where) for _, a, b, where in s.taken])
    dead = {(t, j) for t, j, _ in s.killed}
    for t in range(n):
        for j, i in enumerate(calls[t]):
            if (t, j) in dead:
                continue
            got = outcome(s.results[t][j])
            _same(case, w[i][0], alone[i], got, s, t, "")
            ctx.log(w[i][0], got[0])
    # and the shared objects still answer
    for i in sorted(alone):
        if (case["seed"] + i) % 2:
            res = attempt(w[i][1])
            _same(case, w[i][0], alone[i], outcome(res), s, 0,
                  " afterwards")


def _same(case, name, want, got, s, t, when):
    if want[0] != got[0] or want[0] == "raised":
        if want != got:
            raise Violation("raised:" + name if got[0] == "raised" else
                            "value:" + name, "%s%s: %s, alone %s; %s" % (
                                name, when, _say(got), _say(want), _hist(s)))
        return
    d = differs(want[1], got[1])
    if d:
        raise Violation("value:" + name, "%s%s: the result of caller %d "
                        "differs from that of a lone caller: %s; %s" % (
                            name, when, t, d, _hist(s)))


def _say(o):
    return "raised " + o[1] if o[0] == "raised" else "returned a value"


def _hist(s):
    return "; ".join("line %d: %d to %d in %s" % x for x in s.taken[:6]) + \
        "".join("; caller %d killed in %s" % (t, w) for t, _, w in s.killed)
