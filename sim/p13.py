"""P13: random samples are valid for every underlying draw."""
import contextlib
import io
import random

import copy

import numpy as np
import scipy.stats as st

from . import dense
from .core import RANDOM, Violation, tensap
from .opbase import check_tbt

PROP = "P13"
CASES = {"quick": 6000, "thorough": 250000}
RULE = ("a case is a seeded history of 4-12 sampling operations over all "
        "measures, vectors, grids, bases and random tensors, with the numpy "
        "generator behind a seam that replaces draws by the extreme legal "
        "ones with a seeded probability; non-trivial when at least one "
        "sample was checked; distinct by (operations, laws, sizes, whether "
        "extreme draws were given)")
MEASURE = "distinct sequences of (operation, law, size, extreme or not)"
REAL = ["tensap measures, random variables, vectors, grids, bases, tensors"]
STUBS = ["numpy.random draws (seeded; replaced by extreme legal draws)"]
OPS = ["rv", "rv", "rv", "lebesgue", "dmeasure", "dmeasure", "product",
       "vector", "vector", "rmi", "grid", "lhs", "lhs", "lhsvec", "bases",
       "ftensor", "fba", "poly", "basis", "create", "tensors", "function",
       "big", "gridsize"]
SEEN = []                     # what the current operation drew
KS = 3.3                      # sqrt(n) sup|F_n - F|; probability below 1e-9


def gen(seed, tier):
    r = random.Random(seed)
    ops = [[r.choice(OPS), r.randrange(1 << 30),
            r.choice([0.0, 0.0, 0.2, 1.0])] for _ in range(r.randint(4, 12))]
    return {"seed": seed, "ops": ops, "cfg": {}}


def simplify(case):
    for i, op in enumerate(case["ops"]):
        if op[2]:
            c = dict(case, ops=[list(o) for o in case["ops"]])
            c["ops"][i][2] = 0.0
            yield c


# -- laws -------------------------------------------------------------------
class Law:
    """A law with its own reference cdf, quantile and support."""

    def __init__(self, name, obj, cdf, ppf, lo, hi, atoms=None, tol=1e-9,
                 cdfl=None):
        self.name, self.obj, self.cdf, self.ppf = name, obj, cdf, ppf
        self.lo, self.hi, self.atoms, self.tol = lo, hi, atoms, tol
        self.cdfl = cdfl or cdf              # left limit of the cdf


def discrete(r, cls="rv"):
    k = r.randint(1, 6)
    vals = sorted(r.sample(range(-5, 15), k))
    if r.random() < 0.4:
        vals = [v + 0.5 for v in vals]
    shuffled = r.random() < 0.4
    if shuffled:
        r.shuffle(vals)
    w = [r.choice([1.0, 1.0, 0.1, 3.0, 0.0, 1e-9]) for _ in range(k)]
    if r.random() < 0.3:
        w = [0.1] * k
    if not sum(w):
        w[r.randrange(k)] = 1.0
    if cls == "rv":
        p = np.array(w) / sum(w)
        obj = tensap.DiscreteRandomVariable(
            vals, None if r.random() < 0.2 else p)
        p = np.full(k, 1 / k) if len(set(obj.probabilities)) == 1 and \
            len(set(w)) > 1 else p
    else:
        obj = tensap.DiscreteMeasure(vals, np.array(w))
        p = np.array(w) / sum(w)
    v = np.array(vals, float)

    def cdf(x):
        return np.array([p[v <= t + 1e-12].sum() for t in np.ravel(x)])

    def cdfl(x):
        return np.array([p[v < t - 1e-12].sum() for t in np.ravel(x)])

    law = Law("discrete", obj, cdf, None, v.min(), v.max(),
              atoms=v[p > 0], cdfl=cdfl)
    law.sorted = not shuffled or list(vals) == sorted(vals)
    law.p, law.v = p, v
    return law


def uniform(r):
    a = r.choice([-1.0, 0.0, -3.5, 2.0, 1e6, -1e-3])
    b = a + r.choice([1.0, 2.0, 0.25, 7.0])
    if r.random() < 0.2:
        a, b = int(np.floor(a)), int(np.floor(a)) + 3
    return Law("uniform", tensap.UniformRandomVariable(a, b),
               lambda x: np.clip((np.ravel(x) - a) / (b - a), 0, 1),
               lambda u: a + (b - a) * np.asarray(u), a, b)


def normal(r):
    m, s = r.choice([0, 0.0, 3.0, -20.0]), r.choice([1, 1.0, 0.1, 5.0])
    return Law("normal", tensap.NormalRandomVariable(m, s),
               lambda x: st.norm.cdf(np.ravel(x), m, s),
               lambda u: st.norm.ppf(u, m, s), -np.inf, np.inf)


def empirical(r):
    g = np.random.RandomState(r.randrange(1 << 30))
    z = g.randn(r.randint(5, 15)) * r.choice([1.0, 2.0]) + r.choice([0, 4.0])
    obj = tensap.EmpiricalRandomVariable(z)

    def cdf(x):
        return np.ravel(obj.cdf(np.ravel(x)))
    return Law("empirical", obj, cdf, None, -1e4, 1e4, tol=1e-7)


def law(r, emp=True):
    k = r.random()
    if emp and k < 0.06:
        return empirical(r)
    return uniform(r) if k < 0.4 else normal(r) if k < 0.65 else discrete(r)


def size(r):
    n = r.choice([1, 1, 2, 3, 5, 10])
    return np.int64(n) if r.random() < 0.2 else n


# -- checks -----------------------------------------------------------------
def in_support(lw, x, what):
    x = np.asarray(x)
    if not np.all(np.isfinite(x.astype(float))):
        raise Violation("finite", "%s: a sample of %s is not finite" % (
            what, lw.name))
    if lw.atoms is not None:
        bad = [v for v in np.ravel(x) if not np.any(np.abs(
            lw.atoms - v) < 1e-9)]
        if bad:
            raise Violation("support", "%s: %s is not a value of positive "
                            "probability" % (what, bad[0]))
    else:
        eps = 1e-12 * max(1.0, abs(lw.lo) if np.isfinite(lw.lo) else 1.0)
        if np.any(x < lw.lo - eps) or np.any(x > lw.hi + eps):
            raise Violation("support", "%s: sample of %s outside its support"
                            % (what, lw.name))


def shape_is(x, shape, what):
    if not isinstance(x, np.ndarray) or x.shape != tuple(int(s) for s in
                                                         shape):
        raise Violation("shape", "%s: shape %s instead of %s" % (
            what, np.shape(x), shape))


def same(a, b, tol=1e-9):
    a, b = np.sort(np.ravel(a)), np.sort(np.ravel(b))
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def uniforms(rec):
    out = [np.ravel(v) for n, v in rec
           if n in ("rand", "random", "random_sample")]
    other = [n for n, v in rec if n not in ("rand", "random",
                                            "random_sample")]
    return (np.concatenate(out) if out else np.zeros(0)), other


def by_inversion(lw, x, rec, what):
    """Samples drawn by inversion are the quantiles of their draws."""
    u, other = uniforms(rec)
    if lw.name == "normal":
        z = [np.ravel(v) for n, v in rec if n in ("randn", "standard_normal")]
        if len(z) == len(rec) and sum(map(len, z)) == x.size:
            exp = lw.ppf(0.5) + np.concatenate(z) * (
                lw.ppf(st.norm.cdf(1.0)) - lw.ppf(0.5))
            if not same(exp, x, 1e-8):
                raise Violation("quantile", "%s: samples are not those of the "
                                "normal draws" % what)
        return
    if other or u.size != x.size:
        return
    if lw.name == "empirical":
        if not same(lw.cdf(x), np.clip(u, 1e-12, 1 - 1e-12), 1e-6):
            raise Violation("quantile", "%s: samples are not the quantiles of "
                            "their draws" % what)
    elif lw.ppf is not None:
        if not same(lw.ppf(u), x):
            raise Violation("quantile", "%s: samples are not the quantiles of "
                            "their draws" % what)
    elif getattr(lw, "sorted", False):
        xs, us = np.sort(np.ravel(x)), np.sort(u)
        hi, lo = lw.cdf(xs), lw.cdfl(xs)
        if np.any(us > hi + 1e-9) or np.any(us < lo - 1e-9):
            raise Violation("quantile", "%s: samples are not the quantiles of "
                            "their draws" % what)


def strata(lw, x, n, what):
    x = np.sort(np.ravel(x))
    j = np.arange(n)
    tol = max(lw.tol, 1e-9)
    if np.any(lw.cdf(x) < j / n - tol) or \
            np.any(lw.cdfl(x) > (j + 1) / n + tol):
        raise Violation("strata", "%s: not one point per stratum of %s" % (
            what, lw.name))


def ks(lw, x, what):
    x = np.sort(np.ravel(x))
    n = x.size
    if lw.atoms is not None:
        a = lw.atoms
        emp = np.array([np.mean(x <= t + 1e-12) for t in a])
        d = np.max(np.abs(emp - lw.cdf(a)))
    else:
        F = lw.cdf(x)
        d = max(np.max(np.arange(1, n + 1) / n - F),
                np.max(F - np.arange(n) / n))
    if d * np.sqrt(n) > KS:
        raise Violation("law", "%s: %d samples are not distributed as %s "
                        "(Kolmogorov distance %.3f)" % (what, n, lw.name, d))


def vector(r, emp=False):
    laws = [law(r, emp) for _ in range(r.randint(1, 4))]
    if r.random() < 0.2:
        lw = law(r, False)
        d = r.randint(1, 4)
        return [lw] * d, tensap.RandomVector(lw.obj, d)
    v = tensap.RandomVector([w.obj for w in laws])
    if len(laws) > 1 and r.random() < 0.25:
        keep = sorted(r.sample(range(len(laws)), r.randint(1, len(laws))))
        return [laws[i] for i in keep], v.marginal(keep)
    if len(laws) > 1 and r.random() < 0.25:
        perm = r.sample(range(len(laws)), len(laws))
        return [laws[i] for i in perm], v.transpose(perm)
    return laws, v


def columns(laws, x, n, what, fresh):
    shape_is(x, (n, len(laws)), what)
    for i, w in enumerate(laws):
        in_support(w, x[:, i], what)
    if fresh and n >= 3:
        us = [w.cdf(x[:, i]) for i, w in enumerate(laws) if w.atoms is None]
        for i in range(len(us)):
            if len(np.unique(us[i])) < n:
                raise Violation("repeated", "%s: a continuous law gives the "
                                "same value twice" % what)
            for k in range(i):
                if np.allclose(us[i], us[k], atol=1e-9) or \
                        np.allclose(us[i], 1 - us[k], atol=1e-9):
                    raise Violation("shared", "%s: two independent components "
                                    "use the same draws" % what)


def bases_of(r):
    laws = [uniform(r) if r.random() < 0.5 else normal(r)
            for _ in range(r.randint(1, 3))]
    for i, w in enumerate(laws):
        if w.name == "uniform" and abs(w.lo) > 1e3:
            laws[i] = normal(random.Random(1))
    b = [tensap.PolynomialFunctionalBasis(w.obj.orthonormal_polynomials(),
                                          range(r.randint(1, 4)))
         for w in laws]
    return laws, b


def close(a, b, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape and a.size == b.size:
        a = a.reshape(b.shape)
    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-7, atol=1e-7):
        raise Violation("values", "%s: the values returned with the sample "
                        "are not those at the sample" % what)


def run(case, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        for name, seed, p in case["ops"]:
            r = random.Random(seed)
            RANDOM.adv = random.Random(seed + 1)
            RANDOM.p = 0.0
            RANDOM.record = None
            before = RANDOM.extreme
            del SEEN[:]
            try:
                what = _one(name, r, p, ctx)
            except Violation:
                raise
            except Exception as e:
                raise Violation("raised", "%s raised %s: %s" % (
                    name, type(e).__name__, str(e)[:200]))
            ctx.log(name, what, list(SEEN))
            ext = RANDOM.extreme > before
            if ext:
                ctx.probe("sample with extreme draws")
                ctx.config = "extreme draws"
            ctx.op(name)
            ctx.mark(name, what, ext)


def draw(fn, p):
    RANDOM.p = p
    RANDOM.record = []
    try:
        SEEN.append(fn())
        return SEEN[-1]
    finally:
        RANDOM.p = 0.0


def _one(name, r, p, ctx):
    n = size(r)
    fresh = p == 0.0
    if name == "rv":
        w = law(r)
        x = draw(lambda: w.obj.random(n), p)
        shape_is(x, (n,), name)
        in_support(w, x, name)
        by_inversion(w, x, RANDOM.record, name)
        columns([w], x[:, None], n, name, fresh)
    elif name == "lebesgue":
        w = uniform(r)
        a, b = w.lo, w.hi
        x = draw(lambda: tensap.LebesgueMeasure(a, b).random(n), p)
        shape_is(x, (n,), name)
        in_support(w, x, name)
        by_inversion(w, x, RANDOM.record, name)
    elif name == "dmeasure":
        if r.random() < 0.3:
            k = r.randint(1, 5)
            vals = np.array([[i, r.randint(-3, 3)] for i in range(k)], float)
            wt = np.array([r.choice([1.0, 2.0, 0.5, 0.0]) for _ in range(k)])
            if not wt.sum():
                wt[0] = 1.0
            x = draw(lambda: tensap.DiscreteMeasure(vals, wt).random(n), p)
            shape_is(x, (n, 2), name)
            ok = {tuple(v) for v in vals[wt > 0]}
            for row in x:
                if tuple(row) not in ok:
                    raise Violation("support", "discrete measure: %s is not "
                                    "one of its points" % (tuple(row),))
            return "2d"
        w = discrete(r, "measure")
        x = draw(lambda: w.obj.random(n), p)
        shape_is(x, (n,), name)
        in_support(w, x, name)
        by_inversion(w, x, RANDOM.record, name)
    elif name == "product":
        laws = []
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if k < 0.3:
                w = uniform(r)
                w.obj = tensap.LebesgueMeasure(w.lo, w.hi)
            elif k < 0.5:
                w = discrete(r, "measure")
            else:
                w = law(r, False)
            laws.append(w)
        m = tensap.ProductMeasure([w.obj for w in laws])
        if r.random() < 0.3:
            keep = r.sample(range(len(laws)), r.randint(1, len(laws)))
            m, laws = m.marginal(keep), [laws[i] for i in keep]
        x = draw(lambda: m.random(n), p)
        columns(laws, x, n, name, fresh)
        return tuple(w.name for w in laws)
    elif name == "vector":
        laws, v = vector(r, True)
        x = draw(lambda: v.random(n), p)
        columns(laws, x, n, name, fresh)
        return tuple(w.name for w in laws)
    elif name == "rmi":
        d = r.randint(1, 4)
        if r.random() < 0.5:
            shape = [r.randint(1, 5) for _ in range(d)]
            sets = [range(k) for k in shape]
            arg = np.array(shape) if r.random() < 0.3 else shape
        else:
            sets = [sorted(r.sample(range(9), r.randint(1, 4)))
                    for _ in range(d)]
            arg = [np.array(s) for s in sets]
        before = copy.deepcopy(arg)
        X = tensap.random_multi_indices(arg)
        if type(arg) is not type(before) or any(
                type(u) is not type(v) or not np.array_equal(u, v)
                for u, v in zip(arg, before)):
            raise Violation("mutated", "random_multi_indices wrote to its "
                            "argument")
        x = draw(lambda: X.random(n), p)
        shape_is(x, (n, d), name)
        for row in x:
            if any(v not in s for v, s in zip(row, sets)):
                raise Violation("support", "random multi-index %s is not in "
                                "the set" % (tuple(row),))
        return d
    elif name in ("grid", "gridsize"):
        laws, v = vector(r)
        d = len(laws)
        k = [r.randint(1, 4) for _ in range(d)] if name == "gridsize" else \
            int(n)
        G = draw(lambda: tensap.FullTensorGrid.random(v, k), p)
        ks_ = k if name == "gridsize" else [k] * d
        if list(np.ravel(G.shape)) != list(ks_) or G.dim != d:
            raise Violation("shape", "random grid has shape %s instead of %s"
                            % (list(np.ravel(G.shape)), ks_))
        for i, w in enumerate(laws):
            g = np.asarray(G.grids[i])
            if g.size != ks_[i]:
                raise Violation("shape", "grid %d has %d points" % (i, g.size))
            in_support(w, g, name)
        return d
    elif name == "lhs":
        w = law(r)
        x = draw(lambda: w.obj.lhs_random(n), p)
        shape_is(x, (n,), name)
        in_support(w, x, name)
        strata(w, x, n, name)
    elif name == "lhsvec":
        laws, v = vector(r)
        n = r.choice([1, 2, 5, 9])
        x = draw(lambda: v.lhs_random(n), p)
        columns(laws, x, n, name, False)
        for i, w in enumerate(laws):
            strata(w, x[:, i], n, name)
        if fresh and n >= 5:
            cont = [np.argsort(x[:, i]) for i, w in enumerate(laws)
                    if w.atoms is None]
            if len(cont) >= 4 and all(np.array_equal(cont[0], c)
                                      for c in cont[1:]):
                raise Violation("shared", "all components of a Latin "
                                "hypercube sample are ordered alike")
        return tuple(w.name for w in laws)
    elif name in ("bases", "ftensor", "fba"):
        laws, b = bases_of(r)
        B = tensap.FunctionalBases(b)
        v = tensap.RandomVector([w.obj for w in laws])
        d = len(b)
        g = np.random.RandomState(r.randrange(1 << 30))
        if name == "bases":
            dims = sorted(r.sample(range(d), r.randint(1, d)))
            H, x = draw(lambda: B.random_dims(dims, n, v, 2), p)
            H = H if isinstance(H, list) else [H]
            if len(H) != len(dims) or len(x) != len(dims):
                raise Violation("shape", "evaluations of %d bases instead of "
                                "%d" % (len(H), len(dims)))
            for i, k in enumerate(dims):
                in_support(laws[k], x[i], name)
                shape_is(np.asarray(H[i]), (n, b[k].cardinal()), name)
                close(H[i], b[k].eval(np.ravel(x[i])), name)
        elif name == "ftensor":
            f = tensap.FunctionalTensor(tensap.FullTensor(
                g.randn(*[k.cardinal() for k in b])), B)
            y, x = draw(lambda: f.random_dims(range(d), n, v, nargout=2), p)
            X = np.hstack([np.reshape(t, (n, 1)) for t in x])
            columns(laws, X, n, name, fresh)
            y = getattr(y, "data", y)
            close(np.ravel(y), np.ravel(f.eval(X)), name)
        else:
            H = tensap.FullTensorProductFunctionalBasis(B)
            k = r.randint(1, 2)
            f = tensap.FunctionalBasisArray(g.randn(H.cardinal(), k), H, k)
            if r.random() < 0.5:
                y, x = draw(lambda: f.random(n, v), p)
                columns(laws, x, n, name, fresh)
                close(y, f.eval(x), name)
            else:
                y, x = draw(lambda: H.random(n, v), p)
                columns(laws, x, n, name, fresh)
                close(y, H.eval(x), name)
        return d
    elif name in ("poly", "basis"):
        w = uniform(r) if r.random() < 0.5 else normal(r)
        if abs(w.lo) > 1e3 and np.isfinite(w.lo):
            w = normal(random.Random(2))
        q = w.obj.orthonormal_polynomials()
        ind = list(range(r.randint(1, 4)))
        if name == "poly":
            y, x = draw(lambda: q.random(ind, n), p)
            shape_is(x, (n,), name)
            close(y, q.polyval(ind, x), name)
        else:
            bb = tensap.PolynomialFunctionalBasis(q, ind)
            y, x = draw(lambda: bb.random(n), p)
            close(y, bb.eval(x), name)
            shape_is(np.ravel(x), (n,), name)
            by_inversion(w, np.ravel(x), RANDOM.record, name)
        in_support(w, x, name)
        return w.name
    elif name == "function":
        laws, v = vector(r)
        f = tensap.UserDefinedFunction(
            lambda x: np.sum(np.atleast_2d(x), 1), len(laws))
        f.evaluation_at_multiple_points = True
        f.measure = v
        own = r.random() < 0.5
        y, x = draw(lambda: f.random(n, None if own else v), p)
        columns(laws, x, n, name, fresh)
        close(y, np.sum(x, 1), name)
        return len(laws)
    elif name == "create":
        tree = tensap.DimensionTree(*dense.make_tree(r, r.randint(2, 5)))
        d = len(tree.dim2ind)
        shape = r.choice([None, "random", [r.randint(1, 4)
                                           for _ in range(d)]])
        rk = r.choice([None, "random", 2])
        if rk == 2:
            rk = np.full(tree.nb_nodes, 2)
            rk[tree.root - 1] = 1
        act = r.choice([None, "random"])
        gen_ = r.choice(["rand", "randn"])
        t = draw(lambda: getattr(tensap.TreeBasedTensor, gen_)(
            tree, rk, shape, act), p)
        check_tbt(t, "create")
        if isinstance(shape, list) and list(t.shape) != shape:
            raise Violation("shape", "random tensor of shape %s instead of %s"
                            % (list(t.shape), shape))
        if isinstance(rk, np.ndarray) and np.any(np.asarray(t.ranks)[
                np.asarray(t.is_active_node, bool)] != rk[np.asarray(
                    t.is_active_node, bool)]):
            raise Violation("shape", "random tensor has ranks %s" % t.ranks)
        if np.any(np.asarray(t.shape) < 1):
            raise Violation("shape", "empty dimension in %s" % (t.shape,))
        for k, c in enumerate(t.tensors):
            if isinstance(c, tensap.FullTensor) and c.data.size:
                if not np.all(np.isfinite(c.data)):
                    raise Violation("finite", "core %d is not finite" % k)
                if gen_ == "rand" and (c.data.min() < 0 or
                                       c.data.max() > 1):
                    raise Violation("support", "uniform core outside [0, 1]")
    elif name == "tensors":
        d = r.randint(1, 4)
        shape = [r.randint(1, 4) for _ in range(d)]
        gen_ = r.choice(["rand", "randn"])
        k = r.randint(1, 3)
        kind = r.choice(["full", "canonical", "diagonal"])
        if kind == "full":
            t = draw(lambda: getattr(tensap.FullTensor, gen_)(shape), p)
            exp, parts = shape, [t.data]
        elif kind == "canonical":
            t = draw(lambda: getattr(tensap.CanonicalTensor, gen_)(k, shape),
                     p)
            exp, parts = shape, [np.asarray(x) for x in t.space]
        else:
            t = draw(lambda: getattr(tensap.DiagonalTensor, gen_)(k, d), p)
            exp, parts = [k] * d, [np.asarray(t.data)]
        if list(np.ravel(t.shape)) != exp or t.order != d:
            raise Violation("shape", "random %s tensor has shape %s instead "
                            "of %s" % (kind, list(np.ravel(t.shape)), exp))
        for x in parts:
            if not np.all(np.isfinite(x)) or (gen_ == "rand" and (
                    np.min(x) < 0 or np.max(x) > 1)):
                raise Violation("support", "random %s tensor has entries "
                                "outside the law" % kind)
        return kind
    elif name == "big":
        kind = r.choice(["rv", "vector", "measure", "lhs"])
        n = 300
        if kind == "rv":
            w = law(r, False)
            x = draw(lambda: w.obj.random(n), 0.0)
            shape_is(x, (n,), name)
            laws, x = [w], x[:, None]
        elif kind == "vector":
            laws, v = vector(r)
            x = draw(lambda: v.random(n), 0.0)
        elif kind == "lhs":
            laws, v = vector(r)
            x = draw(lambda: v.lhs_random(n), 0.0)
        else:
            w = discrete(r, "measure")
            x = draw(lambda: w.obj.random(n), 0.0)
            laws, x = [w], x[:, None]
        columns(laws, x, n, name, kind != "lhs")
        for i, w in enumerate(laws):
            ks(w, x[:, i], name)
        return kind
    return n
