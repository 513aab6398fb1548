"""P09: stored evaluations are never stale, lost or misattributed."""
import contextlib
import copy
import io
import random

import numpy as np

from .core import Violation, tensap

PROP = "P09"
CASES = {"quick": 12000, "thorough": 300000}
RULE = ("a case is a function (callable, string, coefficients on a basis, "
        "low-rank tensor on bases, partial evaluation; scalar, vector or "
        "matrix output) and a seeded history of 3-14 queries with storage, "
        "some failing or cut short, with the caller rewriting its arrays in "
        "between; non-trivial when at least one query completed; distinct by "
        "(function kind, output shape, queries, hits, fired faults)")
MEASURE = "distinct sequences of (query kind, points, hits, fired fault)"
KINDS = ["scalar", "multi", "vector", "matrix", "string", "array", "tensor",
         "partial", "vecmulti", "partialvec", "list", "object"]


class CallbackError(Exception):
    pass


def gen(seed, tier):
    r = random.Random(seed)
    pf = r.choice([0.0, 0.3, 0.7])
    ops = []
    for _ in range(r.randint(3, 14)):
        f = None
        if r.random() < pf:
            f = {"kind": r.choice(["callback", "callback", "interrupt",
                                   "alloc"]), "at": round(r.random(), 4)}
        ops.append([r.choice(["call", "call", "call", "store_eval", "return_f",
                              "scribble_x", "scribble_y", "copy", "toggle"]),
                    r.randrange(1 << 30), f])
    return {"seed": seed, "ops": ops,
            "cfg": {"kind": r.choice(KINDS), "dim": r.randint(1, 3),
                    "lattice": r.choice([2, 3, 6]),
                    "on": r.random() < 0.7}}


class Black:
    """The user's callback: pure, logged, can be made to fail."""

    def __init__(self, w, shape):
        self.w = w
        self.shape = shape
        self.log = []
        self.fail_at = None
        self.calls = 0

    def __deepcopy__(self, memo):
        return self

    def row(self, x):
        v = np.cos(float(np.dot(self.w[:len(x)], x))) + float(np.sum(x)) * 0.3
        k = int(np.prod(self.shape))
        out = v * np.arange(1, k + 1) + np.sin(np.arange(k) + float(x[0]))
        return out.reshape(self.shape)

    def __call__(self, x):
        x = np.atleast_2d(x)
        k = self.calls
        self.calls += 1
        if self.fail_at is not None and k >= self.fail_at:
            self.fail_at = None
            raise CallbackError("user function failed")
        self.log.extend(tuple(float(v) for v in row) for row in x)
        return np.array([self.row(row) for row in x])


def _build(cfg, r):
    d, kind = cfg["dim"], cfg["kind"]
    w = [r.uniform(-2, 2) for _ in range(4)]
    shape = {"vector": (3,), "vecmulti": (2,), "list": (2,), "object": (2,), "matrix": (2, 3),
             "partialvec": (2,)}.get(kind, (1,))
    black = Black(w, shape)
    ref = None
    if kind in ("scalar", "vector", "matrix"):
        f = tensap.UserDefinedFunction(
            black, d, shape if kind != "scalar" else None)
        f.evaluation_at_multiple_points = False
    elif kind == "multi":
        f = tensap.UserDefinedFunction(lambda x: black(x).reshape(-1), d)
        f.evaluation_at_multiple_points = True
    elif kind == "vecmulti":
        f = tensap.UserDefinedFunction(black, d, 2)
        f.evaluation_at_multiple_points = True
    elif kind == "list":
        f = tensap.UserDefinedFunction(lambda x: list(black(x).T), d, 2)
        f.evaluation_at_multiple_points = True
    elif kind == "object":
        class Obj:
            def eval(self, x):
                return black(x)
        f = tensap.UserDefinedFunction(Obj(), d, (2,))
        f.evaluation_at_multiple_points = r.random() < 0.5
    elif kind == "string":
        f = tensap.UserDefinedFunction("+".join(
            "%d*x%d**2" % (i + 1, i) for i in range(d)), d)
        f.evaluation_at_multiple_points = True
        black = None

        def ref(x):
            return (np.asarray(x, float) ** 2) @ np.arange(1, d + 1)
    elif kind in ("array", "tensor"):
        bases = tensap.FunctionalBases([tensap.PolynomialFunctionalBasis(
            tensap.HermitePolynomials(), range(3)) for _ in range(d)])
        g = np.random.RandomState(r.randrange(1 << 30))
        if kind == "array":
            H = tensap.FullTensorProductFunctionalBasis(bases)
            k = r.choice([1, 2, 4])
            c = g.randn(3 ** d, k)
            if k == 4:                       # matrix-valued
                f = tensap.FunctionalBasisArray(c.reshape(-1, 2, 2), H,
                                                [2, 2])
            else:
                f = tensap.FunctionalBasisArray(c, H, k)

            def ref(x):
                y = _hermite(x, d) @ c
                if k == 4:
                    return y.reshape(-1, 2, 2)
                return y[:, 0] if k == 1 else y
        else:
            c = g.randn(*(3,) * d)
            f = tensap.FunctionalTensor(tensap.FullTensor(c), bases)

            def ref(x):
                return _hermite(x, d) @ c.reshape(-1, order="F")
        black = None
    else:                                         # partial evaluation
        D = d + 1
        f0 = tensap.UserDefinedFunction(black, D, shape if
                                        kind == "partialvec" else None)
        f0.evaluation_at_multiple_points = r.random() < 0.5
        X = tensap.RandomVector(tensap.UniformRandomVariable(-1, 1), D)
        f0.measure = X
        pos = r.randrange(D)
        val = float(r.randint(-2, 2))
        f = f0.partial_evaluation([pos], np.array([[val]]))
        inner = black

        def full(x):
            return np.insert(np.asarray(x, float), pos, val, axis=1)

        def ref(x):
            y = np.array([inner.row(v) for v in full(x)])
            return y[:, 0] if y.ndim == 2 and y.shape[1] == 1 else y
        f._sim_full = full
    if ref is None:
        b = black

        def ref(x):
            y = np.array([b.row(v) for v in np.asarray(x, float)])
            return y[:, 0] if y.ndim == 2 and y.shape[1] == 1 else y
    return f, black, ref


def _hermite(x, d):
    x = np.asarray(x, float)
    h = [np.stack([np.ones(len(x)), x[:, i], (x[:, i] ** 2 - 1) / np.sqrt(2)],
                  axis=1) for i in range(d)]
    out = h[0]
    for i in range(1, d):
        out = (h[i][:, :, None] * out[:, None, :]).reshape(len(x), -1)
    return out


def run(case, ctx):
    cfg = case["cfg"]
    r0 = random.Random(case["seed"])
    with contextlib.redirect_stdout(io.StringIO()):
        _run(case, ctx, cfg, r0)


def _run(case, ctx, cfg, r0):
    f, black, ref = _build(cfg, r0)
    full = getattr(f, "_sim_full", lambda x: x)
    if hasattr(f, "_sim_full"):
        del f._sim_full
    d = cfg["dim"]
    f.store = bool(cfg["on"])
    faulty = any(o[2] for o in case["ops"])
    ctx.config = cfg["kind"] + ("/faults" if faulty else "/fault-free")
    stored = set()           # points returned by a completed stored query
    last = {"x": None, "y": None}
    for name, seed, fault in case["ops"]:
        r = random.Random(seed)
        if name == "scribble_x":
            if last["x"] is not None:
                last["x"][...] = r.choice([0.0, 1.0, 7.5])
                ctx.probe("caller rewrote its points")
            continue
        if name == "scribble_y":
            if last["y"] is not None and last["y"].ndim and \
                    last["y"].flags.writeable:
                last["y"][...] = -77.0
                ctx.probe("caller rewrote the returned values")
            continue
        if name == "copy":
            f = copy.deepcopy(f)
            continue
        if name == "toggle":
            f.store = not f.store
            continue
        n = r.choice([1, 1, 2, 3, 5, 8])
        x = np.array([[float(r.randrange(cfg["lattice"])) - 1 for _ in
                       range(d)] for _ in range(n)])
        if last["x"] is not None and r.random() < 0.25:
            x = np.array(last["x"])[::-1].copy()
            n = len(x)
            x = x.reshape(n, d)
        kind = r.random()
        if kind < 0.15:
            x = x.astype(int)
        elif kind < 0.3:                 # points close to stored ones
            x = x + r.choice([1e-6, -1e-7, 1e-3])
        if d == 1 and r.random() < 0.3:
            x = x[:, 0].copy()
        rows = np.asarray(x, float).reshape(n, d)
        pts = [tuple(v) for v in rows.tolist()]
        hits = sum(p in stored for p in pts)
        storing = f.store or name == "store_eval"
        if name == "store_eval" and not f.store:
            stored.clear()           # a new storage starts here

        def call(g, y):
            if name == "store_eval":
                return g.store_eval(y)
            if name == "return_f":
                return g(y, return_f=True)
            return g(y)

        before = x.copy()
        fired, err, res = None, None, None
        ncall = len(black.log) if black else 0
        if fault is None:
            try:
                res = call(f, x)
            except Exception as e:
                err = e
        elif fault["kind"] == "callback":
            if black is not None:
                black.calls = 0
                call(copy.deepcopy(f), x.copy())
                k = black.calls
                del black.log[ncall:]
                black.calls = 0
                ctx.plan("callback")
                if k:
                    black.fail_at = min(int(fault["at"] * k), k - 1)
            try:
                res = call(f, x)
            except CallbackError as e:
                err, fired = e, ("callback",)
                ctx.fault("callback")
            except Exception as e:
                err = e
            if black is not None:
                if black.fail_at is None and k and fired is None:
                    raise Violation("swallowed", "the exception of the user "
                                    "function did not reach the caller")
                black.fail_at = None
        else:
            nl, kern, _ = ctx.measure(lambda: call(copy.deepcopy(f),
                                                   x.copy()))
            if black:
                del black.log[ncall:]
            res, err, fired = ctx.faulty(fault, lambda: call(f, x), nl, kern)
        if not np.array_equal(x, before):
            raise Violation("points", "the points of the caller were changed")
        if err is not None and fired:
            ctx.log(name, "failed")
            ctx.mark(name, "fault")
            if black:
                del black.log[:]
            last["x"] = x
            continue
        if err is not None:
            raise Violation("raised", "%s raised %s: %s" % (
                name, type(err).__name__, err))
        if name == "store_eval" or name == "return_f":
            if not isinstance(res, tuple) or len(res) != 2 or \
                    not callable(res[1]):
                raise Violation("result", "%s returned %s" % (
                    name, type(res).__name__))
            y, g = res
            f = g
        else:
            y = res
        exp = np.asarray(ref(rows), float)
        y = np.asarray(y)
        if name == "store_eval" and n == 1:
            ok = y.size == exp.size            # squeezed, as documented
            y2, e2 = y.reshape(-1), exp.reshape(-1)
        else:
            ok = y.shape == exp.shape
            y2, e2 = y, exp
        if not ok:
            raise Violation("shape", "%s of %d points has shape %s, direct "
                            "evaluation %s" % (name, n, y.shape, exp.shape))
        if not np.allclose(np.asarray(y2, float), e2, rtol=1e-9, atol=1e-9):
            raise Violation("value", "%s: stored evaluation differs from the "
                            "direct one by %.3e" % (name, float(np.max(np.abs(
                                np.asarray(y2, float) - e2)))))
        if black is not None and storing and stored:
            done = {tuple(v) for v in full(np.array(sorted(stored))).tolist()}
            again = [p for p in black.log[ncall:] if p in done]
            if again:
                raise Violation("reevaluated", "point %s was stored and is "
                                "evaluated again" % (again[0],))
        if black:
            del black.log[:]
        if storing:
            stored.update(pts)
        if hits and storing:
            ctx.probe("query with stored points")
        last["x"], last["y"] = x, y if isinstance(res, tuple) else res
        ctx.op(name)
        ctx.log(name, exp)
        ctx.mark(name, n, hits, storing, bool(fired))


def simplify(case):
    for i, op in enumerate(case["ops"]):
        if op[2] is not None:
            c = dict(case, ops=[list(o) for o in case["ops"]])
            c["ops"][i][2] = None
            yield c
