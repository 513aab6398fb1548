"""P18: what is built from bases stays the function it stands for."""
import copy
import random

import numpy as np
from numpy.polynomial import hermite_e, legendre

from . import hist
from .core import RANDOM, Violation, snap, tensap
from .dense import dense, make_tree
from .p17 import changed

PROP = "P18"
CASES = {"quick": 6000, "thorough": 120000}
LINE_BUDGET = 20_000_000
RULE = ("a case is 1-3 functions (functional tensors on tree-based, full or "
        "canonical tensors, functional basis arrays on full or sparse "
        "products) over shared univariate bases and a seeded history of 4-16 "
        "operations: evaluations, derivatives, gradients, products, sums, "
        "moments, conditional expectations, projections, restrictions and "
        "permutations, parameter gradients, samples; operations are cut "
        "short, run out of memory or meet a failing kernel and are then "
        "repeated; every function is a polynomial whose coefficients the "
        "reference model carries along; non-trivial when an operation "
        "completed; distinct by the sequence of (operation, class, fault)")
MEASURE = "distinct sequences of (operation, class, shape, fault)"
REAL = ["functional tensors, basis arrays, bases, polynomials, measures, "
        "tensor algebra"]
STUBS = ["numpy.linalg kernels (real, made to fail on command)",
         "random draws (seeded)"]
ASSUMPTIONS = ["univariate bases are polynomial, so that the reference model "
               "is exact"]
MAXDEG = 9


# ------------------------------------------------------------- the reference
class Dim:
    """A variable: t = (x - c) / s, and the moments of t."""

    def __init__(self, kind, c, s):
        self.kind, self.c, self.s = kind, c, s

    def moment(self, p):
        if self.kind == "uniform":
            return 0.0 if p % 2 else 1.0 / (p + 1)
        return 0.0 if p % 2 else float(np.prod(np.arange(1, p, 2)))

    def var(self):
        if self.kind == "uniform":
            return tensap.UniformRandomVariable(self.c - self.s,
                                                self.c + self.s)
        return tensap.NormalRandomVariable(self.c, self.s)


class Poly:
    """k polynomials of d variables, as coefficients of powers of t."""

    def __init__(self, P, dims):
        self.P = np.asarray(P, float)
        self.dims = list(dims)

    @property
    def k(self):
        return self.P.shape[0]

    def eval(self, x):
        x = np.asarray(x, float).reshape(-1, len(self.dims))
        out = np.repeat(self.P[None], len(x), 0)
        for i in reversed(range(len(self.dims))):
            t = (x[:, i] - self.dims[i].c) / self.dims[i].s
            V = np.vander(t, out.shape[-1], increasing=True)
            out = np.einsum("n...p,np->n...", out, V)
        return out

    def mag(self, x):
        x = np.asarray(x, float).reshape(-1, len(self.dims))
        y = np.array([[abs(v - d.c) + d.c for v, d in zip(row, self.dims)]
                      for row in x]).reshape(x.shape)
        return float(np.max(np.abs(Poly(np.abs(self.P), self.dims).eval(y)),
                            initial=0.0)) + 1e-12

    def derivative(self, n):
        P = self.P
        for i, m in enumerate(n):
            for _ in range(int(m)):
                q = P.shape[i + 1]
                if q == 1:
                    P = np.zeros_like(P)
                    continue
                w = np.arange(1, q).reshape([-1] + [1] * (P.ndim - i - 2))
                P = np.take(P, range(1, q), i + 1) * w / self.dims[i].s
        return Poly(P, self.dims)

    def times(self, o):
        k = self.k
        shape = [k] + [a + b - 1 for a, b in zip(self.P.shape[1:],
                                                 o.P.shape[1:])]
        P = np.zeros(shape)
        for j in range(k):
            for ij in np.ndindex(*self.P.shape[1:]):
                sl = tuple(slice(a, a + b) for a, b in zip(ij, o.P.shape[1:]))
                P[(j,) + sl] += self.P[(j,) + ij] * o.P[j % o.k]
        return Poly(P, self.dims)

    def plus(self, o, a=1.0, b=1.0):
        shape = [self.k] + [max(u, v) for u, v in zip(self.P.shape[1:],
                                                      o.P.shape[1:])]
        P = np.zeros(shape)
        P[tuple(slice(0, n) for n in self.P.shape)] += a * self.P
        P[tuple(slice(0, n) for n in o.P.shape)] += b * o.P
        return Poly(P, self.dims)

    def mix(self, M):
        return Poly(np.tensordot(np.asarray(M).T, self.P, 1), self.dims)

    def condexp(self, keep, dims=None):
        """Expectation over the others, under the laws of dims if given."""
        P = self.P
        for i in reversed(range(len(self.dims))):
            if i in keep:
                continue
            m = np.array([self._mom(i, p, dims)
                          for p in range(P.shape[i + 1])])
            P = np.tensordot(P, m, ([i + 1], [0]))
        return Poly(P, [d for i, d in enumerate(self.dims) if i in keep])

    def _mom(self, i, p, dims):
        d = self.dims[i]
        if dims is None or dims[i] is None:
            return d.moment(p)
        e = dims[i]                       # t = a + b u, u standard for e
        a, b = (e.c - d.c) / d.s, e.s / d.s
        co = np.polynomial.polynomial.polypow([a, b], p)
        return sum(c * e.moment(q) for q, c in enumerate(co))

    def mean(self, dims=None):
        return self.condexp((), dims).P.reshape(self.k)

    def transpose(self, perm):
        return Poly(np.transpose(self.P, [0] + [p + 1 for p in perm]),
                    [self.dims[p] for p in perm])


# ----------------------------------------------------------------- the bases
def make_dim(r):
    if r.random() < 0.6:
        a = r.choice([-1.0, 0.0, -2.0, 0.5])
        b = r.choice([1.0, 2.0, 1.0]) if a < 1 else 3.0
        return Dim("uniform", (a + b) / 2, (b - a) / 2)
    return Dim("normal", r.choice([0.0, 0.0, 1.0, -0.5]),
               r.choice([1.0, 1.0, 0.5]))


class Uni:
    """A univariate basis and the power coefficients of its functions."""

    def __init__(self, r, dim):
        self.dim = dim
        n = r.randint(1, 4)
        idx = list(range(n))
        if r.random() < 0.3:
            idx = sorted(r.sample(range(n + 2), n))
        self.kind = "poly" if r.random() < 0.85 else "user"
        self.orth = self.kind == "poly"
        self.one = 0 in idx
        p = max(idx) + 1
        self.U = np.zeros((len(idx), p))
        if self.kind == "user":
            self.idx = [min(i, 3) for i in range(n)]
            self.U = np.eye(n, max(n, 1))
            # functions of x: powers of t
            c, s = dim.c, dim.s
            self.basis = tensap.UserDefinedFunctionalBasis(
                [(lambda x, q=q: ((np.ravel(x) - c) / s) ** q)
                 for q in range(n)], dim.var(), 1)
            self.one = True
            return
        for j, i in enumerate(idx):
            e = np.eye(i + 1)[i]
            if dim.kind == "uniform":
                co = legendre.leg2poly(e) * np.sqrt(2 * i + 1)
            else:
                co = hermite_e.herme2poly(e) / np.sqrt(
                    float(np.prod(np.arange(1, i + 1))))
            self.U[j, :len(co)] = co
        self.basis = tensap.PolynomialFunctionalBasis(
            dim.var().orthonormal_polynomials(), idx)


def power(C, unis):
    """Coefficients [n1..nd, k] in the bases -> Poly."""
    P = np.moveaxis(np.asarray(C, float), -1, 0)
    for i, u in enumerate(unis):
        P = np.moveaxis(np.tensordot(P, u.U, ([i + 1], [0])), -1, i + 1)
    return Poly(P, [u.dim for u in unis])


class Item:
    """A live object with its reference."""

    def __init__(self, kind, obj, ref, unis, exact=True):
        self.kind, self.obj, self.ref, self.unis = kind, obj, ref, unis
        self.exact = exact       # bases known: unis describe obj's bases
        self.floor = 0.0         # size of what it was computed from
        self.order = "C"         # of the components of a value
        self.fd = self.ops = None

    def flat(self, y, *lead):
        """Values as arrays (points, components)."""
        y = np.asarray(y.numpy() if hasattr(y, "numpy") else y, float)
        return np.reshape(y, list(lead) + [self.ref.k], order=self.order)


def gauss(r, shape):
    return np.array([r.gauss(0, 1) for _ in range(int(np.prod(shape)))]
                    ).reshape(shape)


def start(r):
    d = r.randint(1, 4) if r.random() < 0.7 else r.randint(2, 3)
    dims = [make_dim(r) for _ in range(d)]
    unis = [Uni(r, x) for x in dims]
    if r.random() < 0.2 and d > 1:
        unis = [unis[0]] * d
    bases = tensap.FunctionalBases([u.basis for u in unis])
    return [build(r, unis, bases) for _ in range(r.randint(1, 3))]


def build(r, unis, bases, kind=None):
    d = len(unis)
    shape = [u.basis.cardinal() for u in unis]
    kind = kind or r.choice(["ft", "ft", "ba"])
    if kind == "ba":
        k = r.choice([1, 1, 2, 3])
        out = r.choice([k, k, k, (2, 2), (1, 3), (2, 3)])
        k = int(np.prod(out))
        if r.random() < 0.5:
            tp = tensap.FullTensorProductFunctionalBasis(bases)
            ind = tensap.MultiIndices.bounded_by(
                np.array(shape) - 1).array
        else:
            grid = list(np.ndindex(*shape))
            n = r.randint(1, len(grid))
            ind = np.array(r.sample(grid, min(n, 12)))
            tp = tensap.SparseTensorProductFunctionalBasis(
                bases, tensap.MultiIndices(ind))
        data = gauss(r, [len(ind), k])
        C = np.zeros(shape + [k])
        for row, v in zip(ind, data):
            C[tuple(int(a) for a in row)] += v
        it = Item("ba", tensap.FunctionalBasisArray(
            data.reshape([-1] + list(np.atleast_1d(out)), order="F"), tp, out),
            power(C, unis), unis)
        it.order = "F"
        if not np.isscalar(out):
            it.ops = [o for o in BA if o not in ("matmul", "sub",
                                                      "orth")]
        return it
    what = r.random()
    if what < 0.15:
        return build_tensor_valued(r, unis, bases, shape)
    if what < 0.3 and d > 1:
        t = make_tensor(r, shape, "tree", r.randint(2, 3))
        it = Item("ft", tensap.FunctionalTensor(t, bases),
                  power(dense(t), unis), unis)
        it.ops = ["eval", "evals", "deval", "grad", "scale", "param"]
        return it
    t = make_tensor(r, shape)
    return Item("ft", tensap.FunctionalTensor(t, bases),
                power(dense(t)[..., None], unis), unis)


def build_tensor_valued(r, unis, bases, shape):
    """A full tensor some dimensions of which are those of the values."""
    d = len(shape)
    e = [r.randint(1, 3) for _ in range(r.randint(1, 2))]
    fd = sorted(r.sample(range(d + len(e)), d))
    rest = [i for i in range(d + len(e)) if i not in fd]
    full = [0] * (d + len(e))
    for i, n in zip(fd + rest, list(shape) + e):
        full[i] = n
    data = gauss(r, full)
    C = np.transpose(data, fd + rest).reshape(list(shape) + [-1])
    it = Item("ft", tensap.FunctionalTensor(tensap.FullTensor(
        data, len(full), full), bases, fd), power(C, unis), unis)
    it.ops = ["eval", "evals", "grid", "deval", "grad", "mean", "scale",
              "bases", "peval"]
    it.fd = fd
    return it


def make_tensor(r, shape, kind=None, root=1):
    d = len(shape)
    kind = kind or (
        r.choice(["tree", "tree", "full", "can"]) if d > 1 else "full")
    if kind == "full":
        return tensap.FullTensor(gauss(r, shape), d, shape)
    if kind == "can":
        k = r.randint(1, 3)
        return tensap.CanonicalTensor([gauss(r, [n, k]) for n in shape],
                                      gauss(r, [k]))
    tree = tensap.DimensionTree(*make_tree(r, d))
    rk = np.array([r.randint(1, 3) for _ in range(tree.nb_nodes)])
    rk[tree.root - 1] = root
    act = np.full(tree.nb_nodes, True)
    if r.random() < 0.3:
        for leaf in tree.dim2ind:
            act[leaf - 1] = r.random() < 0.5
        act[tree.root - 1] = True
    st = RANDOM.get_state()
    RANDOM.seed(r.randrange(1 << 30))
    try:
        return tensap.TreeBasedTensor.randn(tree, rk, shape, act)
    finally:
        RANDOM.set_state(st)


def points(r, it, n=None):
    n = n or r.randint(1, 5)
    return np.array([[x.c + x.s * r.uniform(-1, 1) for x in it.ref.dims]
                     for _ in range(n)])


# ------------------------------------------------------------ the operations
class Do:
    """fn(obj) against an expectation; makes a new item when new is set."""

    def __init__(self, name, fn, want=None, mag=1.0, new=None, check=None,
                 tol=1e-8):
        self.name, self.fn, self.want, self.mag = name, fn, want, mag
        self.new, self.check, self.tol = new, check, tol


def deg(it):
    return max([n - 1 for n in it.ref.P.shape[1:]] + [0])


def differentiable(it):
    """Full tensor product bases have no derivatives."""
    return poly_only(it) and (it.kind == "ft" or isinstance(
        it.obj.basis, tensap.SparseTensorProductFunctionalBasis))


def orthonormal(it):
    """Basis arrays know the products of orthonormal functions only."""
    return it.kind == "ft" or (
        all(u.orth for u in it.unis) if it.exact
        else it.obj.basis.is_orthonormal)


def poly_only(it):
    return all(u is None or u.kind == "poly" for u in it.unis)


def operation(r, pool, name=None):
    it = pool[r.randrange(len(pool))]
    d = len(it.ref.dims)
    if d == 0:
        return None, None
    table = it.ops or (FT if it.kind == "ft" else BA)
    name = r.choice(table)
    return it, OPS[name](r, it, pool)


def op_eval(r, it, pool):
    x = points(r, it)
    how = r.choice(["eval", "__call__"]) if it.fd is None else "eval"
    return Do(how, lambda o: it.flat(getattr(o, how)(x), len(x)),
              it.ref.eval(x), it.ref.mag(x))


def op_evals(r, it, pool):
    x = points(r, it)
    return Do("eval_with_bases_evals",
              lambda o: it.flat(o.eval_with_bases_evals(o.bases.eval(x)),
                                len(x)),
              it.ref.eval(x), it.ref.mag(x))


def grid_values(it, g):
    sh = [len(v) for v in g]
    xs = np.stack(np.meshgrid(*g, indexing="ij"), -1).reshape(-1, len(g))
    if it.fd is not None:
        sh = sh + [it.ref.k]
    return it.ref.eval(xs).reshape(sh), it.ref.mag(xs)


def op_grid(r, it, pool):
    g = [points(r, it, r.randint(1, 3))[:, i] for i in range(len(it.ref.dims))]
    want, m = grid_values(it, g)

    def fn(o):
        y = dense(o.eval_on_grid([np.array(v) for v in g]))
        if it.fd is not None:
            rest = [i for i in range(y.ndim) if i not in it.fd]
            y = np.transpose(y, it.fd + rest).reshape(want.shape)
        return y
    return Do("eval_on_grid", fn, want, m)


def op_partial_eval(r, it, pool):
    """Evaluation in some of the variables, then in the others."""
    d = len(it.ref.dims)
    fd = it.fd or list(range(d))
    if d < 2 or not it.exact or not isinstance(
            it.obj.tensor, tensap.FullTensor) or fd[0] != 0:
        return None
    dims = [0] + sorted(r.sample(range(1, d), r.randint(0, d - 2)))
    rest = [i for i in range(d) if i not in dims]
    x = points(r, it, r.randint(2, 4))
    z = points(r, it, r.randint(1, 3))
    xs = np.repeat(z[:, None], len(x), 1)
    xs[:, :, dims] = x[None][:, :, dims]
    want = it.ref.eval(xs).reshape([len(z), len(x), -1])

    def fn(o):
        p = o.eval(x[:, dims], dims)
        return np.reshape(p.eval(z[:, rest]).numpy(), want.shape)
    return Do("eval:partial", fn, want, it.ref.mag(xs))


def op_partial_grid(r, it, pool):
    d = len(it.ref.dims)
    if d < 2 or not it.exact:
        return None
    dims = sorted(r.sample(range(d), r.randint(1, d - 1)))
    g = [points(r, it, r.randint(1, 3))[:, i] for i in dims]
    rest = [i for i in range(d) if i not in dims]
    h = [points(r, it, r.randint(1, 3))[:, i] for i in rest]
    full = [None] * d
    for i, v in zip(dims + rest, g + h):
        full[i] = v
    want, m = grid_values(it, full)

    def fn(o):
        p = o.eval_on_grid([np.array(v) for v in g], np.array(dims))
        if list(p.fdims) != rest or len(p.bases) != len(rest):
            raise Violation("partial", "eval_on_grid in dimensions %s leaves "
                            "functional dimensions %s" % (dims, p.fdims))
        q = p.tensor.tensor_matrix_product(
            p.bases.eval([np.array(v) for v in h]), rest)
        return dense(q)
    return Do("eval_on_grid:partial", fn, want, m)


def op_derivative_eval(r, it, pool):
    if not differentiable(it) :
        return None
    x = points(r, it)
    n = [r.choice([0, 0, 1, 2]) for _ in it.ref.dims]
    ref = it.ref.derivative(n)
    want = ref.eval(x)
    return Do("eval_derivative", lambda o: it.flat(
        o.eval_derivative(n, x), len(x)), want, ref.mag(x) + it.ref.mag(x))


def op_gradient(r, it, pool):
    if not differentiable(it) :
        return None
    x = points(r, it, r.randint(2, 5) if it.fd else None)
    d = len(it.ref.dims)
    refs = [it.ref.derivative(np.eye(d)[i]) for i in range(d)]
    want = np.stack([q.eval(x) for q in refs], 1)   # [n, d, k]
    return Do("eval_gradient", lambda o: it.flat(o.eval_gradient(x), len(x),
                                                 d), want,
              sum(q.mag(x) for q in refs) + it.ref.mag(x))


def op_derivative(r, it, pool):
    if not differentiable(it) or not it.exact or any(
            u.basis.indices.size != np.max(u.basis.indices) + 1
            for u in it.unis):
        return None
    n = [r.choice([0, 1, 1, 2]) for _ in it.ref.dims]
    ref = it.ref.derivative(n)
    return Do("derivative", lambda o: o.derivative(n),
              new=lambda res: Item(it.kind, res, ref, [None] * len(n), False))


def other_law(r, it):
    return [Dim(x.kind, x.c + r.choice([0, 0.25]), x.s * r.choice([1, 0.5]))
            for x in it.ref.dims]


def op_mean(r, it, pool):
    if not poly_only(it):
        return None
    how = r.choice(["mean", "expectation"])
    if r.random() < 0.3 and how == "mean":
        laws = other_law(r, it)
        X = tensap.RandomVector([x.var() for x in laws])
        want = it.ref.mean(laws)
        return Do("mean:other", lambda o: it.flat(o.mean(X)), want,
                  np.max(Poly(np.abs(it.ref.P), it.ref.dims).mean(
                      laws), initial=0) + np.abs(it.ref.P).sum())
    return Do(how, lambda o: it.flat(getattr(o, how)()),
              it.ref.mean(), np.abs(it.ref.P).sum())


def second(it, o=None):
    """E f g of the components."""
    return it.ref.times((o or it).ref).mean()


def moments_scale(it, o=None):
    a = Poly(np.abs(it.ref.P), it.ref.dims)
    b = Poly(np.abs((o or it).ref.P), it.ref.dims)
    return float(np.max(np.abs(a.times(b).P).sum()) + a.P.sum() ** 2)


def op_variance(r, it, pool):
    if not poly_only(it) or not orthonormal(it) or deg(it) > 5:
        return None
    how = r.choice(["variance", "std"])
    want = second(it) - it.ref.mean() ** 2
    m = moments_scale(it)
    if how == "std":
        return Do(how, lambda o: np.square(np.nan_to_num(it.flat(
            o.std()))), want, m)
    return Do(how, lambda o: it.flat(o.variance()), want, m)


def op_norm(r, it, pool):
    if not poly_only(it) or not orthonormal(it) or deg(it) > 5:
        return None
    name = "norm" if it.kind == "ft" else "norm_expectation"
    return Do(name, lambda o: np.square(it.flat(getattr(o, name)())),
              second(it), moments_scale(it))


def same_bases(it, pool, ft):
    return [o for o in pool if o.kind == it.kind
            and o.unis is it.unis and np.array_equal(
                getattr(o.obj, "shape", 0), getattr(it.obj, "shape", 0))
            and o.ops == it.ops and (
                ft or snap(o.obj.basis) == snap(it.obj.basis))
            and (not ft or type(o.obj.tensor) is type(it.obj.tensor))]


def op_dot(r, it, pool):
    if not poly_only(it) or deg(it) > 5:
        return None
    o2 = r.choice(same_bases(it, pool, it.kind == "ft") or [it])
    if not orthonormal(it):
        return None
    if not it.exact:
        o2 = it          # other bases only are equal to themselves
    if o2.ref.k != it.ref.k:
        return None
    if it.kind == "ft" and isinstance(it.obj.tensor, tensap.TreeBasedTensor) \
            and o2 is not it:
        return None                       # trees may differ
    return Do("dot_product_expectation", lambda o: it.flat(
        o.dot_product_expectation(o2.obj)), second(it, o2),
        moments_scale(it, o2) + moments_scale(o2))


def op_condexp(r, it, pool):
    d = len(it.ref.dims)
    if not poly_only(it):
        return None
    keep = sorted(r.sample(range(d), r.randint(1, d)))
    if d == len(keep) and it.kind == "ba":
        return None
    laws = None
    args = ()
    if r.random() < 0.3:
        laws = other_law(r, it)
        out = [i for i in range(d) if i not in keep]
        if not out:
            return None
        args = (tensap.RandomVector([laws[i].var() for i in out]),)
    ref = it.ref.condexp(keep, laws)
    un = [it.unis[i] for i in keep]
    dims = keep if r.random() < 0.5 else np.array(keep)
    if r.random() < 0.2:
        dims = [i in keep for i in range(d)]
    elif it.kind == "ft" and r.random() < 0.3:
        dims = keep[::-1]                # sorted by the method
    return Do("conditional_expectation",
              lambda o: o.conditional_expectation(dims, *args),
              new=lambda res: Item(it.kind, res, ref, un, it.exact))


def op_sobol(r, it, pool):
    d = len(it.ref.dims)
    if not poly_only(it) or not orthonormal(it) or deg(it) > 5:
        return None
    n = r.randint(1, d)
    alpha = [sorted(r.sample(range(d), n)) for _ in range(r.randint(1, 2))]
    want = []
    for a in alpha:
        c = it.ref.condexp(a)
        want.append(c.times(c).mean() - it.ref.mean() ** 2)
    want = np.array(want)
    return Do("variance_conditional_expectation", lambda o: it.flat(
        o.variance_conditional_expectation(alpha), len(alpha)), want,
        moments_scale(it))


def op_scale(r, it, pool):
    if isinstance(getattr(it.obj, "tensor", None), tensap.CanonicalTensor):
        return None
    c = r.choice([2.0, -0.5, 3.0])
    ref = Poly(it.ref.P * c, it.ref.dims)
    return Do("scale", lambda o: o * c,
              new=lambda res: Item(it.kind, res, ref, it.unis, it.exact))


def op_times(r, it, pool):
    if not it.exact or not poly_only(it) or deg(it) > 3 or len(
            it.ref.dims) > 3 or isinstance(it.obj.tensor,
                                           tensap.CanonicalTensor):
        return None
    if isinstance(it.obj.tensor, tensap.TreeBasedTensor):
        o2 = it
    else:
        o2 = r.choice(same_bases(it, pool, True) or [it])
    ref = it.ref.times(o2.ref)
    return Do("product", lambda o: o * o2.obj,
              new=lambda res: Item("ft", res, ref, [None] * len(it.unis),
                                   False))


def op_plus(r, it, pool):
    o2 = r.choice(same_bases(it, pool, it.kind == "ft") or [it])
    if o2.ref.k != it.ref.k or not it.exact:
        return None
    if it.kind == "ft":
        if not poly_only(it):
            return None
        if isinstance(it.obj.tensor, tensap.TreeBasedTensor):
            o2 = it
            if it.obj.tensor.tree.nb_nodes == 1:
                return None
        return Do("sum", lambda o: o + o2.obj,
                  new=lambda res: Item("ft", res, it.ref.plus(o2.ref),
                                       it.unis))
    s = r.choice([1, -1])
    return Do("sum", lambda o: o + o2.obj if s > 0 else o - o2.obj,
              new=lambda res: Item("ba", res, it.ref.plus(o2.ref, 1, s),
                                   it.unis))


def op_neg(r, it, pool):
    return Do("neg", lambda o: -o, new=lambda res: Item(
        "ba", res, Poly(-it.ref.P, it.ref.dims), it.unis, it.exact))


def op_matmul(r, it, pool):
    M = gauss(r, [it.ref.k, r.randint(1, 3)])
    if r.random() < 0.4:
        M = gauss(r, [it.ref.k, it.ref.k]) + 3 * np.eye(it.ref.k)
        return Do("matdiv", lambda o: o.matdiv(M), new=lambda res: Item(
            "ba", res, it.ref.mix(np.linalg.inv(M)), it.unis, it.exact))
    return Do("matmul", lambda o: o.matmul(M), new=lambda res: Item(
        "ba", res, it.ref.mix(M), it.unis, it.exact))


def op_random(r, it, pool):
    X = tensap.RandomVector([x.var() for x in it.ref.dims])
    n = r.randint(1, 4)

    def fn(o):
        if it.kind == "ft":
            y, x = o.random(n, X, nargout=2)
        else:
            y, x = o.random(n, X)
        x = np.hstack(x) if isinstance(x, (list, tuple)) else np.asarray(x)
        x = x.reshape(-1, len(it.ref.dims))
        want = it.ref.eval(x)
        if np.size(y) != want.size or len(x) != n:
            raise Violation("sample", "%s.random(%d): %s values at %s points"
                            % (type(o).__name__, n, np.shape(y), len(x)))
        if np.max(np.abs(it.flat(y, n) - want), initial=0) > \
                1e-8 * (it.ref.mag(x) + it.floor):
            raise Violation("sample", "%s.random returns values that are not "
                            "those at the points it returns"
                            % type(o).__name__)
        return np.zeros(1)
    return Do("random", fn, np.zeros(1))


def op_parameter(r, it, pool):
    t = it.obj.tensor
    if not isinstance(t, tensap.TreeBasedTensor) or not it.exact or \
            t.tree.nb_nodes == 1:
        return None
    nodes = [n for n in range(1, t.tree.nb_nodes + 1)
             if t.is_active_node[n - 1]]
    a = r.choice(nodes)
    x = points(r, it)
    core = gauss(r, t.tensors[a - 1].data.shape)
    t2 = copy.deepcopy(t)
    t2.tensors[a - 1] = tensap.FullTensor(core.copy())
    def full(t):
        return np.reshape(dense(t), [int(n) for n in t.shape] + [-1])

    ref = power(full(t2), it.unis)
    m = power(np.abs(full(_absolute(t2))), [_abs(u) for u in it.unis])

    def fn(o):
        G = np.asarray(o.parameter_gradient_eval(a, x).data, float)
        want = list(core.shape)
        if it.ops is not None:         # the root rank is that of the values
            want = want[:-1] if a == t.tree.root else want + [it.ref.k]
        if G.size != len(x) * int(np.prod(want)) or len(G) != len(x):
            raise Violation("gradient", "parameter_gradient_eval(%d): shape "
                            "%s for a core of shape %s at %d points" % (
                                a, G.shape, core.shape, len(x)))
        k = it.ref.k
        if it.ops is not None and a == t.tree.root:
            return G.reshape(len(x), -1) @ core.reshape(-1, k)
        return np.einsum("nck,c->nk", G.reshape(len(x), -1, k),
                         core.reshape(-1))
    return Do("parameter_gradient_eval", fn, ref.eval(x), m.mag(x))


class _abs:
    def __init__(self, u):
        self.U, self.dim = np.abs(u.U), u.dim


def _absolute(t):
    t = copy.deepcopy(t)
    for c in t.tensors:
        if hasattr(c, "data"):
            c.data = np.abs(c.data)
    return t


def op_project(r, it, pool):
    if not it.exact:
        return None
    o = it.obj
    if not isinstance(o.basis, tensap.SparseTensorProductFunctionalBasis):
        return None
    shape = [u.basis.cardinal() for u in it.unis]
    have = {tuple(int(a) for a in row) for row in o.basis.indices.array}
    extra = [i for i in np.ndindex(*shape) if i not in have]
    add = r.sample(extra, r.randint(0, len(extra)))
    ind = sorted(have) + add
    r.shuffle(ind)
    big = tensap.SparseTensorProductFunctionalBasis(
        o.basis.bases, tensap.MultiIndices(np.array(ind)))
    return Do("projection", lambda o: o.projection(big), new=lambda res: Item(
        "ba", res, it.ref, it.unis))


def op_gram(r, it, pool):
    """Gram matrices of a sparse basis, through one function."""
    o = it.obj
    if not it.exact or not poly_only(it) or deg(it) > 5 or not isinstance(
            o.basis, tensap.SparseTensorProductFunctionalBasis):
        return None
    h1 = r.random() < 0.5 and all(
        u.basis.indices.size == np.max(u.basis.indices) + 1 for u in it.unis)
    d = len(it.unis)
    refs = [it.ref.derivative(np.eye(d)[i]) for i in range(d)] if h1 else [
        it.ref]
    want = sum(q.times(q).mean() for q in refs)
    mag = sum(moments_scale(Item("ba", None, q, it.unis)) for q in refs)

    def fn(o):
        G = o.basis.gram_matrix_h1_0() if h1 else o.basis.gram_matrix()
        A = np.reshape(o.data, [len(o.data), -1], order=it.order)
        return np.diag(A.T @ (G @ A))
    return Do("gram_h1" if h1 else "gram", fn, want, mag + moments_scale(it))


def op_one(r, it, pool):
    """The constant one in bases that contain it."""
    if not it.exact or not poly_only(it):
        return None
    ok = [i for i, u in enumerate(it.unis) if u.one]
    if not ok:
        return None
    x = points(r, it)[:, ok]

    def fn(o):
        b = o.bases if it.kind == "ft" else o.basis.bases
        c = b.one(np.array(ok))
        return np.stack([h @ np.ravel(v) for h, v in zip(b.eval(x, ok), c)])
    return Do("bases.one", fn, np.ones((len(ok), len(x))))


def op_orth(r, it, pool):
    """Orthonormal functions from the components of a basis array."""
    o = it.obj
    A = np.reshape(o.data, [len(o.data), -1], order=it.order)
    if not it.exact or not all(u.orth for u in it.unis) or len(
            A) < A.shape[1] or np.linalg.cond(A) > 100:
        return None
    Q, R = np.linalg.qr(A)
    x = points(r, it)
    want = it.ref.eval(x) @ np.linalg.inv(R) * np.sign(np.diag(R))

    def fn(o):
        b = o.sub_functional_basis().orthonormalize()
        G = b.basis.T @ b.basis
        if np.max(np.abs(G - np.eye(len(G)))) > 1e-9:
            raise Violation("orthonormal", "orthonormalize: Gram matrix %s"
                            % np.array(G).tolist())
        return b.eval(x)
    return Do("orthonormalize", fn, want, 1e4 * (1 + it.ref.mag(x)))


def op_sub(r, it, pool):
    x = points(r, it)
    want = it.ref.eval(x)
    return Do("sub_functional_basis", lambda o: np.reshape(
        o.sub_functional_basis().eval(x), want.shape), want, it.ref.mag(x))


def op_bases(r, it, pool):
    """Keep, remove or permute the bases, then evaluate them."""
    if not it.exact:
        return None
    d = len(it.unis)
    how = r.choice(["keep_bases", "remove_bases", "transpose", "eval",
                    "derivative"])
    keep = sorted(r.sample(range(d), r.randint(1, d)))
    if how == "remove_bases":
        arg = [i for i in range(d) if i not in keep]
    elif how == "transpose":
        keep = r.sample(range(d), d)
        arg = keep
    else:
        arg = keep
    x = points(r, it)[:, keep]
    un = [it.unis[i] for i in keep]
    want = [np.vander((x[:, j] - u.dim.c) / u.dim.s, u.U.shape[1],
                      increasing=True) @ u.U.T for j, u in enumerate(un)]
    scale = 1 + max(float(np.max(np.abs(w), initial=0)) for w in want) * 10
    get = (lambda o: o.bases) if it.kind == "ft" else (
        lambda o: o.basis.bases)
    if it.kind == "ba" and how in ("keep_bases", "remove_bases", "transpose") \
            and isinstance(it.obj.basis,
                           tensap.FullTensorProductFunctionalBasis):
        # the product basis itself
        prod = [want[0]]
        for w in want[1:]:
            prod.append((prod[-1][:, :, None] * w[:, None, :]).reshape(
                len(x), -1))
        ind = np.array(list(np.ndindex(*[w.shape[1] for w in want])))
        order = np.lexsort(ind.T)      # the first index is the fastest

        def fn(o):
            c = getattr(o.basis, how)(arg)
            laws = [m for m in getattr(c.measure, "measures", [])]
            if len(laws) != len(un) or any(
                    m != u.dim.var() for m, u in zip(laws, un)):
                raise Violation("measure", "%s(%s) of a product basis: "
                                "measure %s" % (how, arg, c.measure))
            return c.eval(x)
        return Do("basis." + how, fn, prod[-1][:, order], scale ** len(un))

    def fn(o):
        b = get(o)
        if how == "eval":
            H = b.eval(x, arg)
        else:
            c = b if how == "derivative" else getattr(b, how)(arg)
            if how == "derivative":
                H = b.eval_derivative([0] * len(keep), x, keep)
                return np.hstack(H)
            laws = [m for m in getattr(c.measure, "measures", [])]
            if len(laws) != len(un) or any(
                    m != u.dim.var() for m, u in zip(laws, un)):
                raise Violation("measure", "%s(%s) of bases: measure %s" % (
                    how, arg, c.measure))
            H = c.eval(x)
        return np.hstack(H)
    if how == "derivative" and not poly_only(it):
        return None
    return Do("bases." + how, fn, np.hstack(want), scale)


FT = ["eval", "eval", "evals", "grid", "pgrid", "peval", "deval", "grad",
      "deriv",
      "mean", "var", "norm", "dot", "cond", "sobol", "scale", "times", "plus",
      "random", "param", "param", "bases", "one"]
BA = ["eval", "eval", "deval", "grad", "deriv", "gram", "mean", "var", "norm",
      "dot", "cond",
      "sobol", "scale", "plus", "neg", "matmul", "random", "project", "sub",
      "bases", "one", "orth"]
OPS = {"eval": op_eval, "evals": op_evals, "grid": op_grid,
       "pgrid": op_partial_grid, "deval": op_derivative_eval,
       "grad": op_gradient, "deriv": op_derivative, "mean": op_mean,
       "var": op_variance, "norm": op_norm, "dot": op_dot,
       "cond": op_condexp, "sobol": op_sobol, "scale": op_scale,
       "times": op_times, "plus": op_plus, "neg": op_neg,
       "matmul": op_matmul, "random": op_random, "param": op_parameter,
       "project": op_project, "gram": op_gram, "one": op_one,
       "orth": op_orth,
       "peval": op_partial_eval, "sub": op_sub,
       "bases": op_bases}


# ----------------------------------------------------------------------- run
def gen(seed, tier):
    r = random.Random(seed)
    p = r.choice([0.0, 0.0, 0.3, 0.6])
    ops = []
    for _ in range(r.randint(4, 16)):
        f = None
        if r.random() < p:
            f = {"kind": r.choice(["interrupt", "interrupt", "alloc",
                                   "kernel", "kernels"]),
                 "name": r.choice(["solve", "svd", "eigh", "eig", "inv",
                                   "lstsq"]),
                 "at": round(r.random(), 4)}
        ops.append([r.randrange(1 << 30), r.randrange(1 << 30), f])
    return {"seed": seed, "start": r.randrange(1 << 30), "ops": ops,
            "cfg": {}}


simplify = hist.simplify


def run(case, ctx):
    ctx.config = "faults" if any(o[2] for o in case["ops"]) else "fault-free"
    with hist.quiet():
        _run(case, ctx)


def verify(it, r, after):
    """The object still is its function."""
    x = points(r, it, 3)
    try:
        y = it.obj.eval(x)
        y = y.numpy() if hasattr(y, "numpy") else np.asarray(y, float)
        if y.size == len(x) * it.ref.k:
            y = it.flat(y, len(x))
    except Exception as e:
        raise Violation("corrupted", "%s cannot be evaluated after %s: %s: %s"
                        % (type(it.obj).__name__, after, type(e).__name__, e))
    close(y, it.ref.eval(x), it.ref.mag(x) + it.floor, "%s after %s" % (
        type(it.obj).__name__, after), "corrupted", 1e-7)


def close(got, want, mag, what, cls, tol):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    if cls == "corrupted" and got.size == want.size:
        got = got.reshape(want.shape)
    if got.shape != want.shape:
        raise Violation("shape", "%s: shape %s, expected %s" % (
            what, got.shape, want.shape))
    if got.size and not np.max(np.abs(got - want)) <= tol * max(mag, 1e-12):
        raise Violation(cls, "%s: %s, the function is %s" % (
            what, got.ravel()[:4], want.ravel()[:4]))


def _run(case, ctx):
    r0 = random.Random(case["start"])
    pool = start(r0)
    trail = []
    for a, b, fault in case["ops"]:
        r = random.Random(a)
        it, op = operation(r, pool)
        if op is None:
            continue
        name = op.name + " of " + type(it.obj).__name__
        before = snap([o.obj for o in pool])
        fired = None
        if fault is not None:
            RANDOM.seed(b)
            nl, kern, _ = ctx.measure(lambda: op.fn(copy.deepcopy(it.obj)))
            RANDOM.seed(b)
            fired = ctx.faulty(fault, lambda: op.fn(it.obj), nl, kern)[2]
        RANDOM.seed(b)
        try:
            res = op.fn(it.obj)
        except Violation:
            raise
        except Exception as e:
            raise Violation("raised:" + op.name, "%s raised %s: %s%s" % (
                name, type(e).__name__, e,
                " after a failed attempt" if fired else ""))
        d = changed(before, snap([o.obj for o in pool]))
        if d:
            raise Violation("changed", "%s changed %s" % (name, d))
        ctx.op(op.name)
        if op.want is not None:
            close(res, op.want, op.mag + it.floor, name, "differs", op.tol)
        if op.new is not None:
            n = op.new(res)
            n.order, n.ops, n.fd = it.order, it.ops, it.fd
            n.floor = max(it.floor, float(np.abs(it.ref.P).sum()))
            verify(n, r, name)
            if deg(n) <= MAXDEG:
                if len(pool) >= 6:
                    pool.pop(r.randrange(len(pool)))
                pool.append(n)
        if r.random() < 0.25:
            verify(pool[r.randrange(len(pool))], r, name)
        trail.append((op.name, type(it.obj).__name__, it.ref.P.shape,
                      fired and fault["kind"]))
        ctx.log(name)
    for it in pool:
        verify(it, r0, "the history")
    if trail:
        ctx.mark(*trail)
