"""P15: interpolation and projection are exact on the span, or raise."""
import copy
import random

import numpy as np

from . import hist
from .core import RANDOM, Violation, snap, diff, tensap

PROP = "P15"
CASES = {"quick": 6000, "thorough": 250000}
LINE_BUDGET = 30_000_000
DRAW_BUDGET = 400_000
RULE = ("a case is 1-3 one-dimensional bases (orthonormal, shifted, "
        "canonical, discrete and subset polynomials, splines, piecewise "
        "polynomials, user-defined, sub-bases, Dirac) and a seeded history of "
        "2-7 selections of points, interpolations (full, sparse, "
        "one-dimensional; functions or values; given or random candidates), "
        "projections and loss evaluations; user functions fail once and "
        "recover, kernels fail, calls are cut short and retried; non-trivial "
        "when an operation completed; distinct by (bases, operations, "
        "argument forms, fired faults)")
MEASURE = "distinct sequences of (operation, bases, argument form, fault)"
REAL = ["tensap bases, polynomials, measures, grids, magic_indices, "
        "integration rules, loss functions, FunctionalTensor"]
STUBS = ["user function (pure logged function that can fail at any call)",
         "numpy.random (seeded, extreme draws)",
         "numpy.linalg kernels (real, made to fail on command)"]
OPS = ["points", "interp", "interp", "full", "full", "sparse", "proj",
       "proj_tensor", "loss", "array"]


class CallbackError(Exception):
    pass


def gen(seed, tier):
    r = random.Random(seed)
    pf = r.choice([0.0, 0.3, 0.7])
    ops = []
    for _ in range(r.randint(2, 7)):
        f = None
        if r.random() < pf:
            f = {"kind": r.choice(["callback", "callback", "callback",
                                   "callback", "interrupt", "alloc",
                                   "kernel"]),
                 "at": round(r.random(), 4)}
        ops.append([r.choice(OPS), r.randrange(1 << 30), f])
    return {"seed": seed, "ops": ops,
            "cfg": {"d": r.choice([1, 2, 2, 3]),
                    "adv": r.choice([0.0, 0.0, 0.1, 1.0])}}


simplify = hist.simplify


class Fun:
    """Pure logged user function; optionally fails once, then recovers."""

    def __init__(self, value):
        self.value = value
        self.points = []
        self.calls = 0
        self.fail_at = None

    def __deepcopy__(self, memo):
        return self

    def clear(self):
        self.points, self.calls, self.fail_at = [], 0, None

    def __call__(self, x):
        k = self.calls
        self.calls += 1
        if self.fail_at is not None and k >= self.fail_at:
            self.fail_at = None
            raise CallbackError("user function failed")
        x = np.asarray(x, float)
        self.points.append(np.array(x))
        return self.value(x)


# ------------------------------------------------------------------- bases
KINDS = ["legendre", "legendre", "hermite", "shifted", "normal", "lebesgue",
         "canonical", "discrete", "discmeasure", "subset", "bspline",
         "piecewise", "user", "sub", "suborth", "delta"]
POLY = {"legendre", "hermite", "shifted", "normal", "lebesgue", "canonical",
        "subset", "sub", "suborth"}
TENSOR_OK = [k for k in KINDS if k not in ("delta",)]


class B1:
    """A one-dimensional basis, its kind and points of its domain."""


def make_basis(r, kind, n=None):
    b = B1()
    b.kind = kind
    n = n or r.randint(1, 5)
    b.rule = None
    lo, hi = -1.0, 1.0
    if kind in ("legendre", "subset", "sub", "suborth", "canonical"):
        X = tensap.UniformRandomVariable(-1, 1)
    if kind == "legendre":
        b.basis = tensap.PolynomialFunctionalBasis(
            tensap.LegendrePolynomials(), range(n))
    elif kind == "hermite":
        X = tensap.NormalRandomVariable()
        b.basis = tensap.PolynomialFunctionalBasis(
            tensap.HermitePolynomials(), range(n))
        lo, hi = -3.0, 3.0
    elif kind == "normal":
        X = tensap.NormalRandomVariable(1.0, 2.0)
        b.basis = tensap.PolynomialFunctionalBasis(
            X.orthonormal_polynomials(), range(n))
        lo, hi = -4.0, 6.0
    elif kind == "shifted":
        lo, hi = r.choice([(0.0, 1.0), (-3.0, 5.0), (2.0, 2.5)])
        X = tensap.UniformRandomVariable(lo, hi)
        b.basis = tensap.PolynomialFunctionalBasis(
            X.orthonormal_polynomials(), range(n))
    elif kind == "lebesgue":
        lo, hi = r.choice([(0.0, 1.0), (-1.0, 1.0), (0.0, 4.0)])
        X = tensap.LebesgueMeasure(lo, hi)
        b.basis = tensap.PolynomialFunctionalBasis(
            X.orthonormal_polynomials(), range(n))
    elif kind == "canonical":
        b.basis = tensap.PolynomialFunctionalBasis(
            tensap.CanonicalPolynomials(X), range(n))
        n = min(n, 4)
    elif kind == "subset":
        idx = sorted(r.sample(range(7), n))
        b.basis = tensap.PolynomialFunctionalBasis(
            tensap.LegendrePolynomials(), idx)
    elif kind in ("sub", "suborth"):
        under = tensap.PolynomialFunctionalBasis(
            tensap.LegendrePolynomials(), range(n + r.randint(0, 2)))
        g = np.random.RandomState(r.randrange(1 << 30))
        m = g.randn(under.cardinal(), n)
        if kind == "suborth":
            m = np.linalg.qr(m)[0]
        b.basis = tensap.SubFunctionalBasis(under, m)
    elif kind in ("discrete", "discmeasure"):
        k = n + r.randint(1, 3)
        vals = np.array(sorted(r.sample(range(-6, 7), k)), float) / 3
        if kind == "discrete":
            X = tensap.DiscreteRandomVariable(vals)
        else:
            X = tensap.DiscreteMeasure(vals.reshape(-1, 1), np.full(
                k, r.choice([0.5, 1.0, 2.0])))
        n = min(n, k - 1)
        b.basis = tensap.PolynomialFunctionalBasis(
            tensap.DiscretePolynomials(X) if kind == "discrete" else
            X.orthonormal_polynomials(), range(n))
        b.values = vals
    elif kind == "delta":
        k = n + 1
        vals = np.array(sorted(r.sample(range(-6, 7), k)), float)
        b.basis = tensap.DeltaFunctionalBasis(vals)
        b.values = vals
        X = None
    elif kind == "bspline":
        m = r.randint(0, 2)
        knots = np.linspace(0, 1, n + 1)
        b.basis = tensap.BSplinesFunctionalBasis.with_extra_knots(knots, m) \
            if n > 1 else tensap.BSplinesFunctionalBasis.cardinal_bspline(m)
        lo, hi = [float(v) for v in b.basis.measure.support()]
        X = b.basis.measure
    elif kind == "piecewise":
        pts = np.array(sorted(r.sample(range(0, 8), r.randint(2, 4))), float)
        p = r.choice([0, 1, 2, None])
        if p is None:
            p = [r.randint(0, 2) for _ in range(len(pts) - 1)]
        b.basis = tensap.PiecewisePolynomialFunctionalBasis(pts, p)
        lo, hi = float(pts[0]), float(pts[-1])
        X = b.basis.measure
    elif kind == "user":
        X = tensap.UniformRandomVariable(0, 2)
        lo, hi = 0.0, 2.0
        b.basis = tensap.UserDefinedFunctionalBasis(
            [lambda x, k=k: np.cos(k * np.asarray(x, float)) + 0.1 * k
             for k in range(n)], X, 1)
    b.measure = X
    b.lo, b.hi = lo, hi
    b.discrete = kind in ("discrete", "discmeasure", "delta")
    b.card = int(b.basis.cardinal())
    return b


def pick(r, b, n):
    """n distinct points of the domain."""
    if b.discrete:
        return np.array(sorted(r.sample(list(b.values), min(n, len(
            b.values)))))
    w = b.hi - b.lo
    return np.array([b.lo + w * (i + 0.05 + 0.9 * r.random()) / n
                     for i in range(n)])


def test_points(r, bs, n=6):
    return np.column_stack([[r.choice(list(b.values)) if b.discrete else
                             b.lo + (b.hi - b.lo) * (0.02 + 0.96 * r.random())
                             for _ in range(n)] for b in bs])


def ev1(b, x):
    return np.asarray(b.basis.eval(np.ravel(np.asarray(x, float))))


def span_fun(bs, c, idx=None):
    """x -> values of the element of the span with coefficients c."""
    if idx is None:
        def value(x):
            x = np.asarray(x, float)
            if x.ndim == 1:
                x = x.reshape(-1, len(bs)) if len(bs) > 1 else x[:, None]
            out = np.tensordot(ev1(bs[0], x[:, 0]), c, axes=([1], [0]))
            for k in range(1, len(bs)):
                out = np.einsum("nj...,nj->n...", out, ev1(bs[k], x[:, k]))
            return out
    else:
        def value(x):
            x = np.asarray(x, float)
            if x.ndim == 1:
                x = x[:, None]
            h = np.ones((len(x), len(idx)))
            for k in range(len(bs)):
                h = h * ev1(bs[k], x[:, k])[:, idx[:, k]]
            return h @ c
    return value


# ------------------------------------------------------------------ running
def run(case, ctx):
    with hist.quiet():
        _run(case, ctx)


def _run(case, ctx):
    cfg = case["cfg"]
    r = random.Random(case["seed"])
    bs = [make_basis(r, r.choice(KINDS)) for _ in range(cfg["d"])]
    faulty = any(o[2] for o in case["ops"])
    ctx.config = "%s/%s" % ("extreme draws" if cfg["adv"] else "real draws",
                            "faults" if faulty else "fault-free")
    for op in case["ops"]:
        step(op, bs, cfg, ctx)


class Job:
    """One operation: call() on real code, check(result), inputs."""

    fun = None                # Fun whose failures must reach the caller
    inputs = ()
    may_raise = ()            # exception types allowed to come out
    form = ""


def step(op, bs, cfg, ctx):
    name, seed, fault = op
    r = random.Random(seed)
    job = MAKE[name](r, bs, ctx)
    if job is None:
        return
    rs = r.randrange(1 << 30)

    def call():
        RANDOM.seed(rs)
        RANDOM.adv = random.Random(rs) if cfg["adv"] else None
        RANDOM.p = cfg["adv"]
        try:
            return job.call()
        finally:
            RANDOM.adv, RANDOM.p = None, 0.0

    before = snap(job.inputs)

    def unchanged():
        d = diff(before, snap(job.inputs))
        if d:
            raise Violation("input", "%s changed its arguments at %s" % (
                name, d))
    fun = job.fun
    fired = None
    if fault is not None:
        if fault["kind"] == "callback":
            if fun is not None:
                ctx.plan("callback")
                fun.clear()
                ctx.measure(call)
                n = fun.calls
                fun.clear()
                if n:
                    fun.fail_at = min(int(fault["at"] * n), n - 1)
                    try:
                        call()
                        out = None
                    except CallbackError:
                        out = "reached"
                    except Exception as e:
                        out = type(e).__name__
                    if fun.fail_at is None:
                        ctx.fault("callback")
                        fired = ("callback",)
                        if out is None:
                            raise Violation("swallowed", "%s swallowed the "
                                            "exception of the user function"
                                            % name)
                        if out != "reached":
                            raise Violation("swallowed", "%s turned the "
                                            "exception of the user function "
                                            "into %s" % (name, out))
        else:
            nl, kern, _ = ctx.measure(call)
            if fun is not None:
                fun.clear()
            _, err, fired = ctx.faulty(fault, call, nl, kern)
        unchanged()
    if fun is not None:
        fun.clear()
    try:
        res = call()
    except np.linalg.LinAlgError as e:
        if job.singular():
            ctx.probe("not unisolvent: raised")
            unchanged()
            return
        raise Violation("raised", "%s (%s): %s" % (name, job.form, e))
    except Exception as e:
        if isinstance(e, job.may_raise):
            return
        raise Violation("raised", "%s (%s) raised %s: %s" % (
            name, job.form, type(e).__name__, str(e)[:200]))
    unchanged()
    job.check(res)
    ctx.op(name)
    ctx.log(name, job.form, res)
    ctx.mark(name, job.form, [b.kind for b in bs], bool(fired))


def close(got, want, cond, what, scale=None):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        if got.size == want.size and got.reshape(-1).shape == \
                want.reshape(-1).shape and 1 in got.shape + want.shape:
            got = got.reshape(want.shape)
        else:
            raise Violation("shape", "%s has shape %s, expected %s" % (
                what, got.shape, want.shape))
    if not cond < 1e9:
        return False
    s = scale or max(1.0, float(np.max(np.abs(want))) if want.size else 1.0)
    e = float(np.max(np.abs(got - want))) if want.size else 0.0
    if not e <= 1e-11 * max(cond, 10.0) * s * 10:
        raise Violation("exact", "%s is wrong by %.2e (condition %.1e)" % (
            what, e, cond))
    return True


def match(points, wanted, what):
    """The logged points are exactly the wanted ones, each once."""
    a = np.asarray(points, float)
    b = np.asarray(wanted, float)
    a = a.reshape(len(a), -1) if a.ndim else a
    b = b.reshape(len(b), -1)
    if a.shape != b.shape or not np.array_equal(
            a[np.lexsort(a.T)], b[np.lexsort(b.T)]):
        raise Violation("points", "%s: the function was evaluated at other "
                        "points than the interpolation points" % what)


def logged(fun):
    if not fun.points:
        return np.zeros((0, 1))
    return np.concatenate([p.reshape(len(p), -1) if p.ndim > 1 else
                           p.reshape(-1, 1) for p in fun.points])


def candidates(r, b):
    """Candidate points given by the caller, or None for the default."""
    if r.random() < 0.45:
        return None
    n = b.card + r.choice([0, 0, 1, 3, 20])
    if b.discrete:
        n = min(n, len(b.values))
    x = pick(r, b, n)
    x = x[r.sample(range(len(x)), len(x))]
    if len(x) and r.random() < 0.2:
        x = np.concatenate([x, x[:1]])           # a point twice
    return x if r.random() < 0.4 else x.reshape(-1, 1)


def in_domain(b, p):
    p = np.ravel(p)
    if not np.all(np.isfinite(p)):
        return False
    if b.discrete:
        return bool(np.all(np.isin(p, b.values)))
    s = b.measure.support()
    return bool(np.all(p >= s[0]) and np.all(p <= s[1]))


def rank_ok(f, n):
    """The candidate matrix clearly determines the basis functions."""
    if f.shape[0] < n:
        return False
    s = np.linalg.svd(f, compute_uv=False)
    return s[n - 1] > 1e-6 * s[0]


def make_points(r, bs, ctx):
    b = r.choice(bs)
    j = Job()
    x = candidates(r, b)
    if b.kind == "piecewise":
        x = None
    J = None
    if x is not None and r.random() < 0.3:
        J = np.array(r.sample(range(b.card), b.card))
    j.inputs = [b.basis, x, J]
    j.form = "%s/%s/%s" % (b.kind, "given" if x is not None else "random",
                           J is not None)
    meth = r.choice(["magic", "magic", "inter"])
    if b.kind == "piecewise":
        j.call = (lambda: b.basis.magic_points()) if meth == "magic" else \
            (lambda: b.basis.interpolation_points())
    elif meth == "magic":
        j.call = (lambda: b.basis.magic_points()) if x is None else \
            (lambda: b.basis.magic_points(x, J))
    else:
        j.call = (lambda: b.basis.interpolation_points()) if x is None else \
            (lambda: b.basis.interpolation_points(x, J))

    def singular():
        if x is None:
            return True         # a draw of candidates may be degenerate
        return not rank_ok(ev1(b, x), b.card)
    j.singular = singular

    def check(res):
        ind = out = None
        if b.kind != "piecewise" and meth == "magic":
            pts, ind, out = res
        else:
            pts = res
        p = np.ravel(np.asarray(pts, float))
        if p.size != b.card:
            raise Violation("points", "%d points for %d functions" % (
                p.size, b.card))
        if not in_domain(b, p):
            raise Violation("points", "points outside the domain: %s" % p)
        h = ev1(b, p)
        cond = np.linalg.cond(h) if h.size else 1.0
        if x is not None:
            c = np.ravel(x)
            if not np.all(np.isin(p, c)):
                raise Violation("points", "points which are not candidates")
            if ind is not None:
                ind = np.asarray(ind)
                if not np.array_equal(c[ind], p):
                    raise Violation("points", "the indices are not those of "
                                    "the points")
            if rank_ok(ev1(b, x), b.card) and len(np.unique(p)) < p.size:
                raise Violation("points", "the points are not distinct")
            if rank_ok(ev1(b, x), b.card) and J is None and cond > 1e9:
                raise Violation("points", "the points are not unisolvent "
                                "(condition %.1e)" % cond)
            if out is not None and cond < 1e8:
                lam = ev1(b, c) @ np.linalg.inv(h)
                want = np.max(np.sum(np.abs(lam), axis=1))
                got = float(out["lebesgue_constant"])
                if abs(got - want) > 1e-6 * want * max(1, cond * 1e-6):
                    raise Violation("lebesgue", "constant %g reported, %g "
                                    "true" % (got, want))
                ctx.probe("Lebesgue constant checked")
        elif cond < 1e9 and len(np.unique(p)) < p.size:
            raise Violation("points", "the points are not distinct")
        if out is not None and float(out["lebesgue_constant"]) < 1 - 1e-6 \
                and cond < 1e8:
            raise Violation("lebesgue", "constant %g < 1" % out[
                "lebesgue_constant"])
    j.check = check
    return j


def wrap(r, fun, d, k):
    """The function as the caller may hand it over."""
    w = r.choice(["callable", "callable", "Function", "vectorised"])
    if w == "callable":
        return fun, w
    shape = None if k == 0 else (k,)
    f = tensap.UserDefinedFunction(fun, d, shape)
    f.evaluation_at_multiple_points = w == "vectorised"
    return f, w


def make_interp(r, bs, ctx):
    j = Job()
    if len(bs) > 1 and r.random() < 0.3 and all(
            b.kind in POLY or b.kind == "user" for b in bs):
        return make_interp_nd(r, bs, ctx)
    b = r.choice(bs)
    k = r.choice([0, 0, 1, 2, 3])
    c = np.array([r.gauss(0, 1) for _ in range(b.card * max(k, 1))])
    c = c.reshape((b.card,) if k == 0 else (b.card, k))
    fun = Fun(span_fun([b], c))
    x = None
    if r.random() < 0.7:
        p = pick(r, b, b.card if not b.discrete else b.card)
        if b.kind == "piecewise" or r.random() < 0.4:
            try:
                p = np.ravel(b.basis.interpolation_points())
            except np.linalg.LinAlgError:
                return None
        x = r.choice([p, p.reshape(-1, 1), p.reshape(-1, 1)])
    form = r.choice(["fun", "fun", "values", "list"]) if x is not None else \
        "fun"
    if form == "fun":
        y, w = wrap(r, fun, 1, k)
        form += "/" + w
        j.fun = fun
    else:
        y = fun.value(np.ravel(x))
        if form == "list":
            y = y.tolist()
    j.form = "%s/%s/%d/%s" % (b.kind, form, k, "x" if x is not None else "-")
    j.inputs = [b.basis, x, y if not callable(y) else None]
    j.call = lambda: b.basis.interpolate(y, x) if x is not None else \
        b.basis.interpolate(y)

    def singular():
        if x is None:
            return True
        return not rank_ok(ev1(b, x), b.card)
    j.singular = singular

    def check(f):
        if j.fun is not None:
            pts = np.unique(logged(fun), axis=0)
        else:
            pts = np.asarray(x, float).reshape(-1, 1)
        if x is not None:
            match(np.unique(pts, axis=0), np.unique(np.ravel(x)).reshape(
                -1, 1), "interpolate")
        elif not in_domain(b, pts):
            raise Violation("points", "evaluated outside the domain")
        if len(pts) < b.card:
            if rank_ok(ev1(b, pts), b.card):
                raise HarnessOops
            return
        cond = np.linalg.cond(ev1(b, pts))
        cc = c.reshape(b.card, -1)
        got = np.asarray(f.data, float).reshape(b.card, -1)
        if close(got, cc, cond, "coefficients"):
            t = test_points(r, [b])
            close(f(t), np.squeeze(fun.value(t)) if k == 1 else fun.value(t),
                  cond * 10, "interpolation")
            ctx.probe("interpolation checked")
        if f.measure != b.basis.measure and b.basis.measure is not None:
            raise Violation("measure", "the interpolation has another measure")
    j.check = check
    return j


class HarnessOops(Exception):
    pass


def product_cond(bs, grids):
    c = 1.0
    for b, g in zip(bs, grids):
        c *= np.linalg.cond(ev1(b, g))
    return c


def make_interp_nd(r, bs, ctx):
    """Interpolation on a tensor product basis at chosen points."""
    j = Job()
    bases = tensap.FunctionalBases([b.basis for b in bs])
    d = len(bs)
    full = r.random() < 0.5
    if full:
        H = tensap.FullTensorProductFunctionalBasis(bases)
        idx = tensap.MultiIndices.bounded_by(
            [b.card - 1 for b in bs]).array
    else:
        idx = lower_set(r, [b.card for b in bs])
        H = tensap.SparseTensorProductFunctionalBasis(
            bases, tensap.MultiIndices(idx))
        idx = H.indices.array
    k = r.choice([0, 1, 2])
    n = len(idx)
    c = np.array([r.gauss(0, 1) for _ in range(n * max(k, 1))])
    c = c.reshape((n,) if k == 0 else (n, k))
    fun = Fun(span_fun(bs, c, idx))
    x = None
    if r.random() < 0.7:
        x = test_points(r, bs, n)
    j.form = "%s/%d/%s" % ("fullbasis" if full else "sparsebasis", k,
                           x is not None)
    if x is not None and r.random() < 0.4:
        y = fun.value(x)
    else:
        y, w = wrap(r, fun, d, k)
        j.fun = fun
        j.form += w
    j.inputs = [bases, x]
    j.call = (lambda: H.interpolate(y, x)) if x is not None else \
        (lambda: H.interpolate(y))

    def mat(p):
        h = np.ones((len(p), n))
        for i in range(d):
            h = h * ev1(bs[i], p[:, i])[:, idx[:, i]]
        return h

    j.singular = lambda: x is None or not rank_ok(mat(x), n)

    def check(f):
        p = x if x is not None else np.unique(logged(fun), axis=0)
        if len(p) < n:
            return
        if x is not None and j.fun is not None:
            match(logged(fun), x, "interpolate")
        for i in range(d):
            if not in_domain(bs[i], p[:, i]):
                raise Violation("points", "evaluated outside the domain")
        cond = np.linalg.cond(mat(p))
        if close(np.asarray(f.data).reshape(n, -1), c.reshape(n, -1), cond,
                 "coefficients"):
            t = test_points(r, bs)
            close(f(t), np.squeeze(fun.value(t)) if k == 1 else fun.value(t),
                  cond * 10, "interpolation")
            ctx.probe("interpolation checked")
    j.check = check
    return j


def lower_set(r, cards):
    """A random downward closed set of multi-indices, as rows."""
    cur = {tuple([0] * len(cards))}
    for _ in range(r.randint(0, 8)):
        a = list(r.choice(sorted(cur)))
        k = r.randrange(len(cards))
        a[k] += 1
        if a[k] >= cards[k]:
            continue
        if all(tuple(a[:i] + [a[i] - 1] + a[i + 1:]) in cur
               for i in range(len(a)) if a[i] > 0):
            cur.add(tuple(a))
    rows = sorted(cur)
    r.shuffle(rows)
    return np.array(rows)


def make_full(r, bs, ctx):
    j = Job()
    d = len(bs)
    if any(b.kind == "delta" for b in bs) and r.random() < 0.7:
        return None
    bases = tensap.FunctionalBases([b.basis for b in bs])
    shape = [b.card for b in bs]
    c = np.array([r.gauss(0, 1) for _ in range(int(np.prod(shape)))]).reshape(
        shape)
    fun = Fun(span_fun(bs, c))
    grid = gr = None
    if r.random() < 0.65 and not any(b.kind == "piecewise" for b in bs):
        gr = []
        for b in bs:
            n = b.card + r.choice([0, 0, 2, 9])
            p = pick(r, b, n)
            gr.append(p[r.sample(range(len(p)), len(p))])
        how = r.choice(["list", "list1", "grid"])
        if how == "grid":
            grid = tensap.FullTensorGrid([p.reshape(-1, 1) for p in gr])
        elif how == "list":
            grid = [p.reshape(-1, 1) for p in gr]
        else:
            grid = list(gr)
        if len({len(p) for p in gr}) == 1 and r.random() < 0.3:
            grid = np.column_stack(gr)
            how = "array"
    else:
        how = "none"
    values = gr is not None and r.random() < 0.3
    if values:
        v = c
        for k in range(d):
            v = np.moveaxis(np.tensordot(ev1(bs[k], gr[k]), v,
                                         axes=([1], [k])), 0, k)
        y = tensap.FullTensor(v)
        w = "tensor"
        if r.random() < 0.3 and d > 1:
            y = tensap.Truncator(1e-14, np.inf).hosvd(y)
            w = "tucker"
    else:
        y, w = wrap(r, fun, d, 0)
        j.fun = fun
    via = r.random() < 0.5
    j.form = "%s/%s" % (how, w)
    j.inputs = [bases, grid, y if values else None]
    obj = bases if via else tensap.FullTensorProductFunctionalBasis(bases)
    j.call = (lambda: obj.tensor_product_interpolation(y, grid)) if \
        grid is not None else (lambda: obj.tensor_product_interpolation(y))
    j.singular = lambda: gr is None or not all(
        rank_ok(ev1(b, p), b.card) for b, p in zip(bs, gr))

    def check(res):
        f, out = res
        used = out["grid"]
        pts = [np.ravel(p) for p in used.grids]
        for k, b in enumerate(bs):
            if len(pts[k]) != b.card:
                raise Violation("points", "%d points for %d functions" % (
                    len(pts[k]), b.card))
            if gr is not None and not np.all(np.isin(pts[k], gr[k])):
                raise Violation("points", "points which are not candidates")
            if not in_domain(b, pts[k]):
                raise Violation("points", "points outside the domain")
        if j.fun is not None:
            want = np.stack(np.meshgrid(*pts, indexing="ij"), -1).reshape(
                -1, d)
            match(logged(fun), want, "tensor_product_interpolation")
            n = int(out["number_of_evaluations"])
            if n != len(want):
                raise Violation("count", "%d evaluations reported, %d made" %
                                (n, len(want)))
        cond = product_cond(bs, pts)
        t = test_points(r, bs)
        if close(f(t), fun.value(t), cond * 10, "interpolation"):
            ctx.probe("tensor interpolation checked")
    j.check = check
    return j


def make_sparse(r, bs, ctx):
    j = Job()
    d = len(bs)
    if not all(b.kind in ("legendre", "hermite", "shifted", "normal",
                          "lebesgue", "canonical", "discrete",
                          "discmeasure") for b in bs):
        return None
    bases = tensap.FunctionalBases([b.basis for b in bs])
    idx = lower_set(r, [b.card for b in bs])
    H = tensap.SparseTensorProductFunctionalBasis(
        bases, tensap.MultiIndices(idx))
    idx = H.indices.array
    n = len(idx)
    c = np.array([r.gauss(0, 1) for _ in range(n)])
    fun = Fun(span_fun(bs, c, idx))
    y, w = wrap(r, fun, d, 0)
    j.fun = fun
    gr = grid = None
    if r.random() < 0.5:
        gr = [pick(r, b, b.card + r.choice([0, 3])) for b in bs]
        grid = [p.reshape(-1, 1) for p in gr]
        if r.random() < 0.5:
            grid = tensap.FullTensorGrid(list(grid))
    j.form = "%s/%s" % (w, grid is not None)
    j.inputs = [bases, idx, grid]
    j.call = (lambda: H.tensor_product_interpolation(y, grid)) if \
        grid is not None else (lambda: H.tensor_product_interpolation(y))
    j.singular = lambda: gr is None

    def check(res):
        f, out = res
        p = logged(fun)
        if int(out["number_of_evaluations"]) != len(p) or len(p) != n:
            raise Violation("count", "%d evaluations reported, %d made, %d "
                            "functions" % (out["number_of_evaluations"],
                                           len(p), n))
        for k, b in enumerate(bs):
            if gr is not None and not np.all(np.isin(p[:, k], gr[k])):
                raise Violation("points", "points which are not candidates")
            if not in_domain(b, p[:, k]):
                raise Violation("points", "points outside the domain")
        h = np.ones((n, n))
        for i in range(d):
            h = h * ev1(bs[i], p[:, i])[:, idx[:, i]]
        cond = np.linalg.cond(h)
        if not cond < 1e13 and all(len(np.unique(p[:, k])) == 1 + np.max(
                idx[:, k]) for k in range(d)):
            raise Violation("points", "points of the sparse grid are not "
                            "unisolvent")
        t = test_points(r, bs)
        if close(f(t), fun.value(t), cond * 10, "interpolation"):
            ctx.probe("sparse interpolation checked")
    j.check = check
    return j


PROJ = {"legendre", "hermite", "shifted", "normal", "lebesgue", "canonical",
        "subset", "sub", "suborth", "piecewise", "discrete", "discmeasure"}


def rule1(r, b):
    """An integration rule which is exact for products of the basis."""
    if b.kind in ("discrete", "discmeasure"):
        return b.measure.integration_rule()
    if b.kind == "piecewise":
        return tensap.IntegrationRule.gauss_legendre_composite(
            b.basis.points, int(np.max(b.basis.p)) + r.randint(1, 3))
    deg = 8
    return b.measure.gauss_integration_rule(deg + r.randint(0, 3))


def make_proj(r, bs, ctx):
    j = Job()
    b = r.choice(bs)
    if b.kind not in PROJ:
        return None
    G = rule1(r, b)
    k = r.choice([0, 1, 2])
    c = np.array([r.gauss(0, 1) for _ in range(b.card * max(k, 1))])
    c = c.reshape((b.card,) if k == 0 else (b.card, k))
    fun = Fun(span_fun([b], c))
    form = r.choice(["fun", "fun", "fun", "values"])
    if form == "fun":
        y, w = wrap(r, fun, 1, k)
        form += "/" + w
        j.fun = fun
    else:
        y = fun.value(np.ravel(G.points))
    meth = r.choice(["projection", "projection", "least_squares_projection"])
    j.form = "%s/%s/%d/%s" % (b.kind, form, k, meth)
    j.inputs = [b.basis, G, y if not callable(y) else None]
    j.call = lambda: getattr(b.basis, meth)(y, G)
    j.singular = lambda: False

    def check(f):
        if j.fun is not None:
            match(np.unique(logged(fun), axis=0), np.unique(np.ravel(
                G.points)).reshape(-1, 1), meth)
        got = np.asarray(f.data, float).reshape(b.card, -1)
        close(got, c.reshape(b.card, -1), 1e4, "projection")
        ctx.probe("projection checked")
    j.check = check
    return j


def make_proj_tensor(r, bs, ctx):
    j = Job()
    if not all(b.kind in PROJ for b in bs):
        return None
    d = len(bs)
    bases = tensap.FunctionalBases([b.basis for b in bs])
    rules = [rule1(r, b) for b in bs]
    I0 = tensap.FullTensorProductIntegrationRule(
        [np.reshape(g.points, (-1, 1)) for g in rules],
        [g.weights for g in rules])
    how = r.choice(["tensor", "full", "sparse"])
    if how == "sparse":
        H = tensap.SparseTensorProductFunctionalBasis(
            bases, tensap.MultiIndices(lower_set(r, [b.card for b in bs])))
        idx = H.indices.array
    else:
        H = tensap.FullTensorProductFunctionalBasis(bases)
        idx = tensap.MultiIndices.bounded_by([b.card - 1 for b in bs]).array
    n = len(idx)
    k = 0 if how == "tensor" else r.choice([0, 1, 2])
    c = np.array([r.gauss(0, 1) for _ in range(n * max(k, 1))])
    c = c.reshape((n,) if k == 0 else (n, k))
    fun = Fun(span_fun(bs, c, idx))
    if how == "tensor":
        y = tensap.UserDefinedFunction(fun, d)
        y.evaluation_at_multiple_points = r.random() < 0.7
        j.call = lambda: H.tensor_product_projection(y, I0)
    else:
        y, w = wrap(r, fun, d, k)
        G = I0.integration_rule()
        j.call = lambda: H.projection(y, G)
    j.fun = fun
    j.form = "%s/%d" % (how, k)
    j.inputs = [bases, I0]
    j.singular = lambda: False

    def check(res):
        f = res[0] if how == "tensor" else res
        want = np.stack(np.meshgrid(*[np.ravel(g.points) for g in rules],
                                    indexing="ij"), -1).reshape(-1, d)
        match(logged(fun), want, "projection")
        if how == "tensor" and int(res[1]["number_of_evaluations"]) != \
                len(want):
            raise Violation("count", "%d evaluations reported, %d made" % (
                res[1]["number_of_evaluations"], len(want)))
        t = test_points(r, bs)
        close(f(t), np.squeeze(fun.value(t)) if k == 1 else fun.value(t),
              1e5, "projection")
        ctx.probe("projection checked")
    j.check = check
    return j


def make_loss(r, bs, ctx):
    """Losses of a function, of a callable, of values."""
    j = Job()
    n, d = r.choice([1, 2, 5, 9]), len(bs)
    k = r.choice([0, 0, 1, 3])
    x = test_points(r, bs, n)
    w = np.array([r.uniform(-1, 1) for _ in range(max(k, 1))])

    def value(z):
        z = np.asarray(z, float)
        v = 1.5 + np.cos(np.sum(z, axis=1))
        return v if k == 0 else v[:, None] * w[None, :k]
    fun = Fun(value)
    yt = np.array([r.gauss(0, 1) for _ in range(n * max(k, 1))]).reshape(
        (n,) if k == 0 else (n, k))
    form = r.choice(["callable", "Function", "values", "object"])
    kind = r.choice(["square", "square", "custom"])
    if kind == "square" and k == 0 and r.random() < 0.3:
        yt = yt.reshape(-1, 1)
    j.fun = fun
    if form == "callable":
        f = fun
    elif form == "Function":
        f = tensap.UserDefinedFunction(fun, d, None if k == 0 else (k,))
        f.evaluation_at_multiple_points = r.random() < 0.7
    elif form == "object":
        class Obj:
            def eval(self, z):
                return fun(z)
        f = Obj()
    else:
        f = value(x)
        j.fun = None
    p = value(x).reshape(n, -1)
    q = yt.reshape(n, -1)
    if kind == "square":
        loss = tensap.SquareLossFunction()
        loss.error_type = r.choice(["relative", "absolute"])
        se = np.sum((p - q) ** 2, axis=1)
        if loss.error_type == "relative":
            want = np.sqrt(np.mean(se) / np.mean(np.sum(q ** 2, axis=1)))
        else:
            want = np.sqrt(np.mean(se))
        risk = np.mean(se)
    else:
        loss = tensap.CustomLossFunction(
            lambda a, b: (np.reshape(a, (n, -1)) - np.reshape(b, (n, -1)))
            ** 4)
        risk = want = np.mean((p - q) ** 4)
    what = r.choice(["test_error", "test_error", "risk_estimation"])
    j.form = "%s/%s/%s/%d/%d" % (kind, form, what, k, min(n, 2))
    j.inputs = [x, yt, loss if kind == "square" else None]
    j.call = lambda: getattr(loss, what)(f, [x, yt])
    j.singular = lambda: False

    def check(res):
        close(np.ravel(res)[0] if np.size(res) == 1 else res,
              want if what == "test_error" else risk, 1e2,
              "%s (%s)" % (what, j.form))
    j.check = check
    return j


def make_array(r, bs, ctx):
    """Embedding of an expansion into a larger tensor product basis."""
    j = Job()
    bases = tensap.FunctionalBases([b.basis for b in bs])
    cards = [b.card for b in bs]
    idx = lower_set(r, cards)
    small = tensap.SparseTensorProductFunctionalBasis(
        bases, tensap.MultiIndices(idx))
    idx = small.indices.array
    have = set(map(tuple, idx.tolist()))
    big = sorted(have | set(map(tuple, lower_set(r, cards).tolist())))
    r.shuffle(big)
    large = tensap.SparseTensorProductFunctionalBasis(
        bases, tensap.MultiIndices(np.array(big)))
    k = r.choice([1, 1, 2, 6])
    c = np.array([r.gauss(0, 1) for _ in range(len(idx) * k)]).reshape(-1, k)
    shape = [2, 3] if k == 6 else k        # matrix-valued: (n, 2, 3)
    f = tensap.FunctionalBasisArray(
        c.reshape(-1, 2, 3) if k == 6 else c, small, shape)
    full = r.random() < 0.3
    if full:
        target = tensap.FullTensorProductFunctionalBasis(bases)
        ind = tensap.MultiIndices.bounded_by([n - 1 for n in cards])
        j.call = lambda: f.projection(target, ind)
    else:
        j.call = (lambda: f.projection(large)) if r.random() < 0.7 else \
            (lambda: f.projection(large, large.indices))
    j.form = "%s/%d" % ("full" if full else "sparse", k)
    j.inputs = [bases, f, large]
    j.singular = lambda: False

    def check(g):
        t = test_points(r, bs)
        want = span_fun(bs, c, idx)(t)
        want = want.reshape(-1, 2, 3) if k == 6 else want
        close(g(t), want[:, 0] if k == 1 else want, 1e2, "embedding")
        ctx.probe("embedding checked")
    j.check = check
    return j


MAKE = {"points": make_points, "interp": make_interp, "full": make_full,
        "sparse": make_sparse, "proj": make_proj,
        "proj_tensor": make_proj_tensor, "loss": make_loss,
        "array": make_array}
