"""A broad pool of library objects and of calls that read them.

No oracle of its own: the results of these calls are compared with the
results of the same calls made elsewhere (in a fresh process: P12; by a lone
caller: P04). A call that raises must raise the same way elsewhere.
"""
import copy
import random
import re

import numpy as np

from . import hist, p15
from .core import RANDOM, snap, tensap

PROP = "POOL"
DRAW_BUDGET = 400_000


def arr(r, n, lo=-1.0, hi=1.0):
    return np.array([lo + (hi - lo) * r.random() for _ in range(n)])


def mat(r, n, m, lo=-1.0, hi=1.0):
    return arr(r, n * m, lo, hi).reshape(n, m)


def gauss(r, shape):
    return np.random.RandomState(r.randrange(1 << 30)).randn(*shape)


# --------------------------------------------------------------- measures
def uniform(r):
    lo = r.choice([-1.0, 0.0, 2.0])
    return tensap.UniformRandomVariable(lo, lo + r.choice([1.0, 2.0, 5.0]))


def normal(r):
    return tensap.NormalRandomVariable(r.choice([0.0, 0, 1.5]),
                                       r.choice([1.0, 1, 0.3, 2.0]))


def discrete(r):
    k = r.randint(2, 6)
    v = sorted(r.sample(range(-6, 9), k))
    p = np.array([r.choice([1.0, 2.0, 0.5]) for _ in v])
    return tensap.DiscreteRandomVariable(
        np.array(v, float) / 2, None if r.random() < 0.3 else p / p.sum())


def empirical(r):
    return tensap.EmpiricalRandomVariable(
        gauss(r, [r.randint(5, 12)]) * r.choice([1.0, 3.0]) +
        r.choice([0.0, 2.0]))


def lebesgue(r):
    lo = r.choice([-1.0, 0.0, 2.0])
    return tensap.LebesgueMeasure(lo, lo + r.choice([1.0, 2.0, 5.0]))


def discmeasure(r):
    k = r.randint(2, 5)
    v = sorted(r.sample(range(-6, 9), k))
    return tensap.DiscreteMeasure(np.array(v, float).reshape(-1, 1), np.array(
        [r.choice([1.0, 2.0, 0.5]) for _ in v]))


def rv(r):
    return r.choice([uniform, normal, discrete, uniform, normal, empirical])(r)


def vector(r):
    return tensap.RandomVector([rv(r) for _ in range(r.randint(1, 3))])


def smooth_vector(r):
    return tensap.RandomVector([r.choice([uniform, normal])(r)
                                for _ in range(r.randint(1, 3))])


def product(r):
    return tensap.ProductMeasure([r.choice([uniform, normal, lebesgue,
                                            discmeasure])(r)
                                  for _ in range(r.randint(1, 3))])


def text(o):
    """The representation without the addresses of objects."""
    return re.sub("0x[0-9a-f]+", "", repr(o))


def first(d):
    return tensap.UserDefinedFunction(lambda z: z[:, 0], d)


def v01(d):
    return tensap.RandomVector([tensap.UniformRandomVariable(0, 1)] * d)


def call(name, *args, draws=False, **kw):
    """Query: attribute or method of the object with fixed arguments."""
    def fn(o):
        a = getattr(o, name)
        return a(*args, **kw) if callable(a) else a
    fn.what = name
    fn.draws = draws
    return fn


def fun(what, f, draws=False):
    f.what = what
    f.draws = draws
    return f


def q_rv(r, o):
    x = arr(r, r.randint(1, 5), -3, 4)
    u = arr(r, r.randint(1, 4), 0.02, 0.98)
    n = r.randint(1, 6)
    other = rv(r)
    return [call("pdf", x), call("cdf", x), call("icdf", u), call("support"),
            call("truncated_support"), call("mean"), call("std"),
            call("variance"), call("moment", np.arange(n)), call("max"),
            call("min"), call("gauss_integration_rule", n),
            call("integration_rule"), call("integration_rule", 3),
            call("iso_probabilistic_grid", n),
            call("discretize_support", n), call("discretize", n),
            call("likelihood", x), call("get_parameters"),
            call("random_variable_statistics"),
            call("get_standard_random_variable"), call("shift", 0.5, 2.0),
            call("mass"), call("is_discrete"), call("number_of_parameters"),
            fun("transfer", lambda o: o.transfer(other, o.icdf(u))),
            fun("polynomials", lambda o: o.orthonormal_polynomials().polyval(
                np.arange(3), x)),
            fun("derivatives", lambda o: o.orthonormal_polynomials(
                ).dn_polyval(2, np.arange(3), x)),
            fun("rule", lambda o: tensap.IntegrationRule.gauss(o, n)),
            fun("eq", lambda o: [o == other, o == copy.deepcopy(o)]),
            fun("repr", text),
            call("random", n, draws=True), call("lhs_random", n, draws=True)]


def q_measure(r, o):
    n = r.randint(1, 6)
    x = arr(r, 4, 0, 2)
    return [call("support"), call("truncated_support"), call("mass"),
            call("ndim"), call("is_discrete"), fun("repr", text),
            fun("eq", lambda o: o == copy.deepcopy(o)),
            call("random", n, draws=True)] + ([
            call("gauss_integration_rule", n), call("shift", 0.5, 2.0),
            call("get_parameters"),
            fun("polynomials", lambda o: o.orthonormal_polynomials().polyval(
                np.arange(2), x))] if hasattr(o, "shift") else
            [call("integration_rule")])


def q_vector(r, o):
    d = len(o.random_variables) if hasattr(o, "random_variables") else 1
    x = mat(r, 4, d, -1, 3)
    n = r.randint(1, 4)
    keep = sorted(r.sample(range(d), r.randint(1, d)))
    perm = r.sample(range(d), d)
    return [call("pdf", x), call("cdf", x), call("support"),
            call("truncated_support"), call("mean"), call("std"),
            call("variance"), call("size"), call("ndim"),
            call("iso_probabilistic_grid", n), call("marginal", keep),
            call("transpose", perm), call("get_standard_random_vector"),
            fun("repr", text),
            fun("transfer", lambda o: o.transfer(
                o.get_standard_random_vector(), x)),
            fun("polynomials", lambda o: [p.polyval(np.arange(3), x[:, i])
                for i, p in enumerate(o.orthonormal_polynomials(3))]),
            fun("eq", lambda o: o == copy.deepcopy(o)),
            call("random", n, draws=True), call("lhs_random", n, draws=True)]


def q_product(r, o):
    d = len(o.measures) if hasattr(o, "measures") else 1
    n = r.randint(1, 3)
    keep = sorted(r.sample(range(d), r.randint(1, d)))
    return [call("support"), call("truncated_support"), call("mass"),
            call("ndim"), call("is_discrete"), call("marginal", keep),
            call("gauss_integration_rule", n), call("random_vector"),
            fun("repr", text),
            call("random", n, draws=True)]


# ------------------------------------------------------------ polynomials
def polynomials(r):
    return r.choice([
        lambda r: tensap.LegendrePolynomials(),
        lambda r: tensap.HermitePolynomials(),
        lambda r: tensap.LegendrePolynomialsLebesgue(),
        lambda r: uniform(r).orthonormal_polynomials(),
        lambda r: normal(r).orthonormal_polynomials(),
        lambda r: lebesgue(r).orthonormal_polynomials(),
        lambda r: discrete(r).orthonormal_polynomials(),
        lambda r: empirical(r).orthonormal_polynomials(),
        lambda r: tensap.CanonicalPolynomials(uniform(r))])(r)


def q_poly(r, o):
    x = arr(r, r.randint(1, 5))
    ind = sorted(r.sample(range(5), r.randint(1, 4))) if r.random() < 0.5 \
        else np.arange(r.randint(1, 4))
    ind = np.array(ind)
    m = uniform(r)
    two = np.array([[0, 0], [1, 1], [0, 2]])
    return [call("polyval", ind, x), call("d_polyval", ind, x),
            call("dn_polyval", 2, ind, x), call("mean", ind),
            call("mean", ind, m), call("moment", two), call("moment", two, m),
            call("poly_coeff", ind), call("roots", r.randint(1, 4)),
            call("recurrence_monic", r.randint(0, 4)), call("one"),
            call("domain"), call("truncated_domain"), fun("repr", text),
            call("is_orthonormal"),
            fun("eq", lambda o: [o == copy.deepcopy(o),
                                 o == tensap.HermitePolynomials()]),
            call("random", ind, 4, draws=True),
            call("random", ind, 4, m, draws=True)]


# ------------------------------------------------------------------- bases
BKINDS = ["legendre", "legendre", "hermite", "normal", "shifted", "lebesgue",
          "canonical", "discrete", "discmeasure", "subset", "bspline",
          "piecewise", "user", "sub", "suborth", "delta"]


def basis(r):
    return p15.make_basis(r, r.choice(BKINDS)).basis


def q_basis(r, o):
    x = arr(r, r.randint(1, 5), 0.05, 0.9)
    d = r.randint(1, 2)
    f = np.sin
    other = tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(),
                                             range(r.randint(1, 3)))
    grid = np.linspace(0.03, 0.97, 19)
    rule = tensap.UniformRandomVariable(0, 1).gauss_integration_rule(5)
    rule = r.choice([
        rule, tensap.IntegrationRule(rule.points, np.array(
            [r.uniform(0.1, 1) for _ in range(5)])),
        tensap.IntegrationRule(grid.reshape(-1, 1), np.full(19, 1 / 19))])
    return [call("eval", x), call("eval", x), call("eval_derivative", d, x),
            call("gram_matrix"), call("gram_matrix", rule), call("mean"),
            call("mean", tensap.UniformRandomVariable(0, 1)),
            call("one"), call("domain"), call("cardinal"), call("ndim"),
            call("kron", other), call("derivative", d), call("hessian", None),
            call("adaptation_path"), call("expectation"), call("storage"),
            call("random_variable"), fun("repr", text),
            call("element_number", x),
            call("interpolation_points", draws=True),
            call("interpolation_points", grid, draws=False),
            call("magic_points", grid), call("eval_sequence", x),
            call("projection", f, rule), call("quasi_projection", f, rule),
            call("least_squares_projection", f, rule),
            call("orthonormalize"),
            fun("eq", lambda o: o == copy.deepcopy(o)),
            call("random", 3, draws=True),
            call("interpolate", np.sin, draws=True)]


def poly_bases(r, d=None):
    d = d or r.randint(1, 3)
    out = []
    for _ in range(d):
        X = r.choice([uniform, normal])(r)
        out.append(tensap.PolynomialFunctionalBasis(
            X.orthonormal_polynomials(), range(r.randint(1, 4))))
    return out


def bases(r):
    if r.random() < 0.2:
        return tensap.FunctionalBases.duplicate(poly_bases(r, 1)[0],
                                                r.randint(1, 3))
    if r.random() < 0.2:
        return tensap.FunctionalBases([basis(r) for _ in range(2)])
    return tensap.FunctionalBases(poly_bases(r))


def q_bases(r, o):
    d = len(o)
    x = mat(r, 4, d, 0.1, 0.9)
    keep = sorted(r.sample(range(d), r.randint(1, d)))
    perm = r.sample(range(d), d)
    n = np.array([r.randint(0, 2) for _ in range(d)])
    grid = np.linspace(0.05, 0.95, 15)
    v = tensap.RandomVector([uniform(r) for _ in range(d)])
    return [call("eval", x), call("eval", x), call("eval", x[:, keep], keep),
            call("eval_derivative", n, x), call("derivative", n),
            call("mean"), call("mean", keep), call("one"), call("one", keep),
            call("gram_matrices"), call("gram_matrices", keep),
            call("cardinals"), call("cardinals", keep), call("ndim"),
            call("domain"), call("length"), call("storage"),
            call("adaptation_path"), call("get_random_vector"),
            call("transpose", perm), call("keep_bases", keep),
            call("remove_bases", keep[:1]), call("orthonormalize"),
            call("interpolation_points", [grid] * d),
            call("magic_points", [grid] * d), fun("repr", text),
            fun("kron", lambda o: o.kron(o)),
            fun("eq", lambda o: o == copy.deepcopy(o)),
            fun("project", lambda o: tensap.FullTensorProductFunctionalBasis(
                o).tensor_product_projection(
                    tensap.UserDefinedFunction(lambda z: np.sum(z, 1), d),
                    tensap.FullTensorProductIntegrationRule(
                        tensap.FullTensorGrid([np.linspace(0, 1, 4)] * d),
                        [np.full(4, 0.25)] * d))),
            call("random", 3, v, draws=True),
            call("random_dims", keep, 3, v.marginal(keep), draws=True)]


def full_basis(r):
    return tensap.FullTensorProductFunctionalBasis(tensap.FunctionalBases(
        poly_bases(r)))


def sparse_basis(r):
    b = poly_bases(r)
    c = [x.cardinal() for x in b]
    I = tensap.MultiIndices.with_bounded_norm(len(b), 1, r.randint(0, 3))
    a = I.array[np.all(I.array < np.array(c), axis=1)]
    return tensap.SparseTensorProductFunctionalBasis(
        tensap.FunctionalBases(b), tensap.MultiIndices(a))


def q_tpbasis(r, o):
    d = len(o.bases)
    x = mat(r, 4, d, 0.1, 0.9)
    keep = sorted(r.sample(range(d), r.randint(1, d)))
    perm = r.sample(range(d), d)
    n = np.array([r.randint(0, 2) for _ in range(d)])
    grid = tensap.FullTensorGrid([np.linspace(0.1, 0.9, 9)] * d)
    return [call("eval", x), call("eval", x), call("mean"),
            call("conditional_expectation", keep), call("cardinal"),
            call("ndim"), call("domain"), call("length"),
            call("transpose", perm), call("keep_bases", keep),
            call("remove_bases", keep[:1]), call("keep_mapping", [0]),
            call("remove_mapping", [0]), call("gram_matrices"),
            call("adaptation_path"), call("orthonormalize"),
            call("tensor_product_interpolation", lambda z: np.sum(z, 1), grid),
            fun("eq", lambda o: o == copy.deepcopy(o))]


def basis_array(r):
    b = sparse_basis(r) if r.random() < 0.5 else full_basis(r)
    k = r.choice([1, 1, 3])
    return tensap.FunctionalBasisArray(gauss(r, [b.cardinal(), k]), b, k)


def q_basis_array(r, o):
    d = len(o.basis.bases)
    x = mat(r, 4, d, 0.1, 0.9)
    keep = sorted(r.sample(range(d), r.randint(1, d)))
    n = np.array([r.randint(0, 1) for _ in range(d)])
    k = int(o.shape[0])
    v = gauss(r, [k, 2])
    return [call("eval", x), call("eval", x), call("__call__", x),
            call("mean"), call("expectation"), call("variance"), call("std"),
            call("norm"), call("norm_expectation"), call("storage"),
            call("sparse_storage"), call("get_coefficients"),
            call("conditional_expectation", keep),
            call("variance_conditional_expectation", [[0]]),
            call("eval_derivative", n, x), call("derivative", n),
            call("eval_gradient", x), call("get_random_vector"),
            call("matmul", v), call("matdiv", gauss(r, [k, k])),
            call("projection", o.basis), call("sub_functional_basis"),
            fun("dot", lambda o: o.dot(o)),
            fun("expect", lambda o: o.dot_product_expectation(o)),
            fun("arith", lambda o: [(o + o).data, (o - o).data, (-o).data,
                                    (o * 2.0).data]),
            call("random", 3, v01(d), draws=True),
            fun("test error", lambda o: o.test_error(first(d), 5, v01(d)), True)]


# ------------------------------------------------- functional tensors, maps
def functional_tensor(r):
    b = poly_bases(r, r.randint(2, 4))
    shape = [x.cardinal() for x in b]
    kind = r.choice(["tree", "tree", "full", "canonical"])
    st = RANDOM.get_state()
    RANDOM.seed(r.randrange(1 << 30))
    try:
        if kind == "tree":
            tree = r.choice([tensap.DimensionTree.balanced,
                             tensap.DimensionTree.linear,
                             tensap.DimensionTree.trivial])(len(b))
            rk = np.array([r.randint(1, 2) for _ in range(tree.nb_nodes)])
            rk[tree.root - 1] = 1
            t = tensap.TreeBasedTensor.randn(tree, rk, shape)
        elif kind == "full":
            t = tensap.FullTensor.randn(shape)
        else:
            t = tensap.CanonicalTensor.randn(r.randint(1, 3), shape)
    finally:
        RANDOM.set_state(st)
    return tensap.FunctionalTensor(t, tensap.FunctionalBases(b))


def q_functional_tensor(r, o):
    d = len(o.bases)
    x = mat(r, 4, d, 0.1, 0.9)
    keep = sorted(r.sample(range(d), r.randint(1, d)))
    n = np.array([r.randint(0, 1) for _ in range(d)])
    grid = [arr(r, 3, 0.1, 0.9) for _ in range(d)]
    node = r.randint(1, d)
    H = o.bases.eval(x)
    return [call("eval", x), call("eval", x), call("eval", x),
            call("__call__", x), call("mean"), call("expectation"),
            call("variance"), call("std"), call("norm"), call("storage"),
            call("conditional_expectation", keep),
            call("variance_conditional_expectation", [[0], list(range(d))]),
            call("eval_derivative", n, x), call("derivative", n),
            call("eval_gradient", x), call("eval_on_grid", grid),
            call("eval_with_bases_evals", H),
            call("parameter_gradient_eval", node, x),
            call("parameter_gradient_eval", 1, x),
            call("parameter_gradient_eval", node, None, H),
            call("get_random_vector"), call("is_random"),
            call("eval_on_tensor_grid", tensap.FullTensorGrid(grid)),
            call("partial_evaluation", keep[:1], x[0, keep[:1]]),
            fun("expect", lambda o: o.dot_product_expectation(o)),
            fun("times", lambda o: o * o),
            fun("tensor", lambda o: o.tensor.full().data),
            call("random", 3, v01(d), draws=True),
            fun("test error", lambda o: o.test_error(first(d), 5, v01(d)), True)]


def function(r):
    k = r.choice(["user", "user", "comp", "bench", "tensorized", "stored"])
    if k == "bench":
        g, X = tensap.multivariate_functions_benchmark(r.choice([
            "borehole", "ishigami", "sin_of_asum", "linear_additive",
            "linear_rank_one", "canonical_rank_2",
            "henon_heiles", "sobol", "anisotropic"]), 6)
        f = tensap.UserDefinedFunction(g, X.size)
        f.measure = X
        return f
    if k == "comp":
        tree = tensap.DimensionTree.balanced(4)
        return tensap.CompositionalModelFunction(
            tree, lambda *a: np.tanh(a[0]) + 0.5 * a[1],
            tensap.RandomVector(tensap.UniformRandomVariable(0, 1), 4))
    if k == "tensorized":
        t = tensap.Tensorizer(2, r.randint(1, 3))
        return t.tensorize(lambda x: np.sin(np.ravel(x)))
    d = r.randint(1, 3)
    f = tensap.UserDefinedFunction(lambda x: np.sum(x, 1) + x[:, 0] ** 2, d)
    f.measure = tensap.RandomVector([uniform(r) for _ in range(d)])
    f.store = k == "stored"
    f.evaluation_at_multiple_points = True
    return f


def q_function(r, o):
    d = int(np.sum(o.dim))
    x = mat(r, 5, d, 0.1, 0.9)
    keep = sorted(r.sample(range(d), r.randint(1, d)))
    grid = [arr(r, 2, 0.1, 0.9) for _ in range(d)]
    out = [call("__call__", x), call("eval", x),
           call("eval_on_tensor_grid", tensap.FullTensorGrid(grid)),
           fun("partial", lambda o: o.partial_evaluation(
               np.array(keep), x[0, keep]).eval(x[:, :max(d - len(keep), 1)])),
           call("domain"),
           call("random", 3, draws=True),
           fun("test error", lambda o: o.test_error(first(d), 5), True)]
    return out


def tensorizer(r):
    t = tensap.Tensorizer(r.choice([2, 2, 3]), r.randint(1, 4), r.randint(1, 2))
    t.ordering_type = r.choice([1, 2])
    return t


def q_tensorizer(r, o):
    x = mat(r, 5, o.dim, 0.0, 0.999)
    return [call("map", x), call("map", x, 2),
            fun("inverse", lambda o: o.inverse_map(o.map(x))),
            fun("tensorize", lambda o: o.tensorize(
                lambda z: np.sum(np.atleast_2d(z), 1))(o.map(x))),
            call("tensorized_function_functional_bases"),
            call("tensorized_function_functional_bases", 2),
            fun("u2z", lambda o: o.u2z(x[:, 0], o.b, o.d)),
            fun("z2u", lambda o: o.z2u(o.u2z(x[:, 0], o.b, o.d), o.b))]


# ----------------------------------------------------------- grids and rules
def grid(r):
    d = r.randint(1, 3)
    if r.random() < 0.6:
        return tensap.FullTensorGrid([arr(r, r.randint(1, 4))
                                      for _ in range(d)])
    I = tensap.MultiIndices.with_bounded_norm(d, 1, r.randint(1, 3))
    return tensap.SparseTensorGrid([arr(r, 4).reshape(-1, 1)
                                    for _ in range(d)], I)


def q_grid(r, o):
    return [call("array"), call("size"), call("shape"), call("ndim"),
            call("multi_indices"),
            call("eval_at_indices", np.zeros((2, o.dim), int))]


def rule(r):
    m = r.choice([uniform, normal, lebesgue])(r)
    k = m.gauss_integration_rule(r.randint(1, 5))
    if r.random() < 0.4:
        return k.tensorize(r.randint(1, 3))
    if r.random() < 0.3:
        return tensap.IntegrationRule.gauss_legendre_composite(
            np.array([0.0, 0.5, 2.0]), r.randint(1, 3))
    return k


def q_rule(r, o):
    def f(x):
        x = np.asarray(x)
        return np.sum(x.reshape(len(x), -1) ** 2, 1)
    return [call("integrate", f), call("ndim"), call("points"),
            call("weights"), call("integration_rule"),
            call("weights_on_grid"), call("tensorize", 2)]


def selection(r):
    m = tensap.ModelSelection()
    n = r.randint(2, 9)
    m.data["complexity"] = [r.randint(1, 40) for _ in range(n)]
    m.data["empirical_risk"] = list(np.sort(arr(r, n, 0.0, 1.0))[::-1])
    m.pen_shape = r.choice([lambda x: x, lambda x: np.sqrt(x)])
    return m


def q_selection(r, o):
    return [call("lambda_path"), call("slope_heuristic"),
            call("m_lambda", arr(r, 3, 0.0, 0.2))]


def utilities(r):
    return tensap


def q_utilities(r, o):
    i = np.array([r.randrange(27) for _ in range(4)])
    m = gauss(r, [5, 3])
    return [call("integer2baseb", i, 3, 3),
            fun("digits", lambda o: o.baseb2integer(o.integer2baseb(i, 3, 3),
                                                    3)),
            call("chebyshev_points", r.randint(1, 5)),
            call("chebyshev_points", r.randint(1, 5), [0, 2]),
            call("magic_indices", m), call("magic_indices", m, 2, "left"),
            call("magic_indices", m, 2, "right"),
            call("fast_intersect", np.arange(4), np.arange(2, 6)),
            call("fast_setdiff", np.arange(4), np.arange(2, 6)),
            fun("benchmark", lambda o: o.multivariate_functions_benchmark(
                "ishigami")[0](np.full((2, 3), 0.3))),
            call("random_multi_indices", [3, 2, 4]),
            fun("draw", lambda o: o.random_multi_indices([3, 2, 4]).random(3),
                True)]


# --------------------------------------------- private solvers, shared parts
def problem(r):
    """Samples and bases, shared by whoever fits them."""
    b = tensap.FunctionalBases(poly_bases(r, r.randint(2, 3)))
    d = len(b)
    n = r.randint(12, 25)
    x = mat(r, n, d, 0.1, 0.9)
    y = np.sin(x @ np.arange(1, d + 1)) + 0.1 * gauss(r, [n])
    return {"bases": b, "x": x, "y": y, "tree": r.choice([
        tensap.DimensionTree.balanced, tensap.DimensionTree.linear])(d),
        "H": b.eval(x)}


def q_problem(r, o):
    k = r.choice([1, 2])
    kind = r.choice(["", "leave_out"])

    def linear(o):
        s = tensap.LinearModelLearningSquareLoss()
        s.basis = tensap.FullTensorProductFunctionalBasis(o["bases"])
        s.training_data = [o["x"], o["y"]]
        if kind:
            s.error_estimation = True
            s.error_estimation_type = kind
        f, out = s.solve()
        return [f.data, out.get("error")]

    def density(o):
        s = tensap.LinearModelLearningDensityL2()
        s.basis = tensap.FullTensorProductFunctionalBasis(o["bases"])
        s.training_data = [o["x"]]
        return s.solve()[0].data

    def fit(s, o):
        s.bases = o["bases"]
        s.training_data = [o["x"], o["y"]]
        s.display = False
        s.alternating_minimization_parameters["max_iterations"] = 3
        s.initialization_type = "ones"
        s.rank = k
        f, out = s.solve()
        return [f.eval(o["x"][:4]), out.get("error")]

    def tree(o):
        return fit(tensap.TreeBasedTensorLearning(
            o["tree"], np.full(o["tree"].nb_nodes, True),
            tensap.SquareLossFunction()), o)

    def canonical(o):
        return fit(tensap.CanonicalTensorLearning(
            len(o["bases"]), tensap.SquareLossFunction()), o)

    return [fun("least squares", linear), fun("density", density),
            fun("tree learning", tree), fun("canonical learning", canonical)]


KINDS = {
    "rv": (rv, q_rv), "rv2": (rv, q_rv), "empirical": (empirical, q_rv),
    "lebesgue": (lebesgue, q_measure), "discmeasure": (discmeasure, q_measure),
    "vector": (vector, q_vector), "smooth": (smooth_vector, q_vector),
    "product": (product, q_product), "poly": (polynomials, q_poly),
    "poly2": (polynomials, q_poly), "basis": (basis, q_basis),
    "basis2": (basis, q_basis), "bases": (bases, q_bases),
    "full basis": (full_basis, q_tpbasis),
    "sparse basis": (sparse_basis, q_tpbasis),
    "basis array": (basis_array, q_basis_array),
    "functional": (functional_tensor, q_functional_tensor),
    "functional2": (functional_tensor, q_functional_tensor),
    "function": (function, q_function), "tensorizer": (tensorizer, q_tensorizer),
    "grid": (grid, q_grid), "rule": (rule, q_rule),
    "selection": (selection, q_selection), "tools": (utilities, q_utilities),
    "problem": (problem, q_problem),
}
NAMES = sorted(KINDS)


def ATTEMPT(q, kind):
    """How a query is called (replaced by an observer)."""
    return q


def query(kind, r, obj, draws=True):
    """One call on obj, chosen by r."""
    qs = KINDS[kind][1](r, obj)
    if not draws:
        qs = [q for q in qs if not q.draws]
    return qs[r.randrange(len(qs))]


# ------------------------------------------------------- as a history (P12)
def gen(seed, tier):
    r = random.Random(seed)
    n = r.randint(1, 4)
    kinds = r.sample(NAMES, n) if r.random() < 0.5 else [r.choice(NAMES)] * n
    ops = [[k, r.randrange(1 << 30), r.randrange(1 << 30)]
           for k in kinds for _ in range(r.randint(3, 12))]
    if r.random() < 0.5:                 # several calls on the same objects
        own = {}
        for op in ops:
            op[1] = own.setdefault(op[0], op[1])
    return {"seed": seed, "ops": ops, "cfg": {}}


def run(case, ctx):
    objs = {}
    with hist.quiet():
        for kind, a, b in case["ops"]:
            if (kind, a) not in objs:
                objs[kind, a] = KINDS[kind][0](random.Random(a))
            o = objs[kind, a]
            q = query(kind, random.Random(b), o)
            try:
                res = ATTEMPT(q, kind)(o)
            except Exception as e:
                ctx.log(kind, q.what, "raised", type(e).__name__)
                ctx.probe("query raised")
                continue
            ctx.log(kind, q.what, res)
            ctx.op(kind)
