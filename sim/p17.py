"""P17: using an object does not change it, nor what it answers later."""
import random

import numpy as np

from . import hist, pool
from .core import RANDOM, Violation, diff, snap, tensap
from .p04 import differs
from .seams import BudgetExceeded

PROP = "P17"
CASES = {"quick": 8000, "thorough": 200000}
LINE_BUDGET = 20_000_000
DRAW_BUDGET = 400_000
RULE = ("a case is 1-3 objects (measures, random variables and vectors, "
        "polynomial families, bases and their products, basis arrays, "
        "functional tensors, functions, tensorizers, grids, quadratures, data "
        "for learning) and a seeded history of 3-14 queries of them and of "
        "the objects they are made of; queries are cut short, run out of "
        "memory or meet a failing kernel, and are repeated; every answer is "
        "compared with the answer of an untouched twin; non-trivial when an "
        "object answered twice; distinct by the sequence of (class, query, "
        "fired fault)")
MEASURE = "distinct sequences of (class, query, fault)"
REAL = ["all of tensap that the queries reach"]
STUBS = ["numpy.linalg kernels (real, made to fail on command)",
         "random draws (seeded)"]
ASSUMPTIONS = ["an attribute that is None until it is first needed may be "
               "filled in by a query"]
NAMES = [k for k in pool.NAMES if k != "tools"]


def gen(seed, tier):
    r = random.Random(seed)
    kinds = [r.choice(NAMES) for _ in range(r.choice([1, 1, 2, 3]))]
    objs = [[k, r.randrange(1 << 30)] for k in kinds]
    pf = r.choice([0.0, 0.0, 0.4, 0.8, 1.0])
    ops = []
    for _ in range(r.randint(3, 14)):
        f = None
        if r.random() < pf:
            f = {"kind": r.choice(["interrupt", "interrupt", "alloc", "alloc",
                                   "kernel", "kernels", "bad", "bad"]),
                 "name": r.choice(["solve", "svd", "eigh", "eig", "inv",
                                   "lstsq", "qr"]),
                 "at": round(r.random(), 4), "times": r.randint(1, 4),
                 "how": r.choice(["columns", "rows", "type", "order"])}
        op = [r.randrange(len(objs)), round(r.random(), 4)
              if r.random() < 0.35 else None, r.randrange(1 << 30), f]
        if ops and r.random() < 0.25:     # the same question again
            op = r.choice(ops)[:3] + [f]
        ops.append(op)
    return {"seed": seed, "objs": objs, "ops": ops, "cfg": {}}


def simplify(case):
    """Drop single faults and repetitions; ask whole objects."""
    for i, op in enumerate(case["ops"]):
        for k in ([3, None], [1, None]):
            if op[k[0]] is not None:
                c = dict(case, ops=[list(o) for o in case["ops"]])
                c["ops"][i][k[0]] = k[1]
                yield c
        if op[3] and op[3]["times"] > 1:
            c = dict(case, ops=[list(o) for o in case["ops"]])
            c["ops"][i][3] = dict(op[3], times=op[3]["times"] - 1)
            yield c


# ------------------------------------------------------------------- objects
def kind_of(x):
    """The kind of queries an object takes, if any."""
    for cls, kind in [
            ("FunctionalTensor", "functional"),
            ("FunctionalBasisArray", "basis array"),
            ("FunctionalBases", "bases"),
            ("FullTensorProductFunctionalBasis", "full basis"),
            ("SparseTensorProductFunctionalBasis", "sparse basis"),
            ("FunctionalBasis", "basis"), ("RandomVector", "vector"),
            ("ProductMeasure", "product"), ("RandomVariable", "rv"),
            ("UnivariatePolynomials", "poly"), ("LebesgueMeasure", "lebesgue"),
            ("DiscreteMeasure", "discmeasure"), ("Tensorizer", "tensorizer"),
            ("IntegrationRule", "rule"), ("FullTensorGrid", "grid")]:
        c = getattr(tensap, cls, None)
        if c is not None and isinstance(x, c):
            return kind
    return None


def parts(x, path=(), depth=0, seen=None):
    """The objects an object is made of: {path: kind}."""
    out = {}
    seen = seen if seen is not None else set()
    if depth > 5 or id(x) in seen:
        return out
    seen.add(id(x))
    if depth and kind_of(x):
        out[path] = kind_of(x)
    if isinstance(x, dict):
        items = sorted(x.items(), key=lambda kv: str(kv[0]))
    elif isinstance(x, (list, tuple)):
        items = list(enumerate(x))
    elif type(x).__module__.startswith("tensap") and hasattr(x, "__dict__"):
        items = sorted(vars(x).items())
    else:
        return out
    for k, v in items:
        out.update(parts(v, path + (k,), depth + 1, seen))
    return out


def follow(x, path):
    for k in path:
        x = x[k] if isinstance(x, (dict, list, tuple)) else getattr(x, k)
    return x


def make(kind, a):
    RANDOM.seed(a)
    return pool.KINDS[kind][0](random.Random(a))


def given(q):
    """What the query hands to the object."""
    out = []
    for c in getattr(q, "__closure__", None) or ():
        try:
            out.append(c.cell_contents)
        except ValueError:
            pass
    return out


class Unfit:
    """An argument no query can use."""


def spoil(q, how):
    """The same query with arguments that do not fit."""
    def bad(x):
        if isinstance(x, tuple):
            return tuple(bad(v) for v in x)
        if isinstance(x, list) and how == "order":
            return x[::-1]
        if isinstance(x, list) and how != "type":
            return [bad(v) for v in x]
        if not isinstance(x, np.ndarray) or not x.ndim:
            return x
        if how == "columns":
            return x[..., :-1]
        if how == "rows":
            return x[:0]
        if how == "type":
            return Unfit()
        return x[::-1]
    for c in q.__closure__ or ():
        try:
            c.cell_contents = bad(c.cell_contents)
        except ValueError:
            pass
    return q


def changed(a, b):
    """Where a picture changed, filling in what was None apart."""
    if a == ("v", None):
        return ""
    if a == b:
        return ""
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] not in (
            ("A",), ("n",), ("v",)):
        if a[:1] == ("obj",) and b[:1] == ("obj",) and a[1] == b[1]:
            x, y = dict(a[2:]), dict(b[2:])
            for k in x:
                d = changed(x[k], y[k]) if k in y else "#gone"
                if d:
                    return "." + str(k) + d
            return ""
        if len(a) == len(b):
            for i, (u, v) in enumerate(zip(a, b)):
                d = changed(u, v)
                if d:
                    return "[%d]" % (i - 1) + d
            return ""
    return ": " + (diff(a, b) or "value")


def outcome(fn, rs):
    RANDOM.seed(rs)
    try:
        return ("value", fn())
    except BudgetExceeded:
        raise
    except Exception as e:
        return ("raised", e)


# ----------------------------------------------------------------------- run
def run(case, ctx):
    ctx.config = "%d objects/%s" % (len(case["objs"]), "faults" if any(
        o[3] for o in case["ops"]) else "fault-free")
    with hist.quiet():
        _run(case, ctx)


def _run(case, ctx):
    objs = [make(k, a) for k, a in case["objs"]]
    kept = []                            # earlier answers
    asked = set()
    trail = []
    for i, part, b, fault in case["ops"]:
        if i >= len(objs):
            continue
        kind, a = case["objs"][i]
        twin = make(kind, a)
        path = ()
        if part is not None:
            ps = sorted(parts(twin).items(), key=str)
            if ps:
                path, kind = ps[min(int(part * len(ps)), len(ps) - 1)]
        other = follow(twin, path)
        q2 = pool.query(kind, random.Random(b), other)
        want = outcome(lambda: q2(other), b)
        o = follow(objs[i], path)
        q = pool.query(kind, random.Random(b), o)
        name = "%s of %s" % (q.what, type(o).__name__)
        before = snap([objs, given(q)])

        def unchanged(when):
            now = snap([objs, given(q)])
            d = changed(before, now)
            if d:
                raise Violation("changed", "%s%s changed %s" % (name, when, d))
            for n, x, s in kept:
                if changed(s, snap(x)):
                    raise Violation("answer", "%s%s changed the answer of an "
                                    "earlier %s" % (name, when, n))

        fired = None
        if fault is not None:
            third = make(*case["objs"][i])
            z = follow(third, path)
            q3 = pool.query(kind, random.Random(b), z)
            if fault["kind"] == "bad":
                ctx.plan("bad argument")
                q3 = spoil(q3, fault["how"])
                if outcome(lambda: q3(z), b)[0] == "raised":
                    q4 = spoil(pool.query(kind, random.Random(b), o),
                               fault["how"])
                    outcome(lambda: q4(o), b)
                    ctx.fault("bad argument")
                    fired = [0, "bad"]
                unchanged(" with unfit arguments")
            else:
                RANDOM.seed(b)
                nl, kern, _ = ctx.measure(lambda: q3(z))
                for j in range(fault["times"]):
                    at = (fault["at"] + 0.618 * j) % 1
                    RANDOM.seed(b)
                    fired = ctx.faulty(dict(fault, at=at), lambda: q(o), nl,
                                       kern)[2] or fired
                    unchanged(" that failed" if fired else "")
        got = outcome(lambda: q(o), b)
        unchanged("")
        if want[0] != got[0]:
            raise Violation("differs", "%s: %s, of an untouched twin: %s" % (
                name, _short(got), _short(want)))
        if got[0] == "value":
            d = differs(snap(want[1]), snap(got[1]))
            if d:
                raise Violation("differs", "%s differs from that of an "
                                "untouched twin: %s" % (name, d))
            kept.append((name, got[1], snap(got[1])))
            del kept[:-4]
            ctx.op(kind)
        else:
            ctx.probe("query raised")
        if (i, path) in asked:
            ctx.probe("answered after other queries")
        asked.add((i, path))
        trail.append((type(o).__name__, q.what, fired and fault["kind"]))
        ctx.log(name, got[0])
    if len(trail) > 1:
        ctx.mark(*trail)


def _short(x):
    return x[0] if x[0] == "value" else "%s: %s" % (
        type(x[1]).__name__, str(x[1])[:100])
