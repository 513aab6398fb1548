"""P26: density learning minimises the empirical L2 risk, history or not."""
import copy
import random

import numpy as np

from . import hist
from .core import RANDOM, Violation, snap, diff, tensap
from .dense import g
from .p10 import Basis, CallbackError

PROP = "P26"
CASES = {"quick": 6000, "thorough": 300000}
LINE_BUDGET = 20_000_000
RULE = ("a case is one LinearModelLearningDensityL2 object and a seeded "
        "history of 1-6 fits in which sample, offset, basis, evaluations, "
        "selection path, regularisation, error estimation and test data "
        "change; kernels fail, the basis raises, calls are cut short and "
        "retried; non-trivial when a fit completed; distinct by (mode, data "
        "form, options, fired faults)")
MEASURE = "distinct sequences of (mode, data form, options, fault)"
REAL = ["tensap LinearModelLearningDensityL2, DensityL2LossFunction, "
        "FunctionalBasisArray, bases"]
STUBS = ["numpy.linalg kernels (real, made to fail on command)",
         "basis evaluation (real, made to raise on command)"]
OPS = ["standard", "standard", "sorted", "sorted", "path", "path"]


def gen(seed, tier):
    r = random.Random(seed)
    pf = r.choice([0.0, 0.3, 0.7])
    ops = []
    for _ in range(r.randint(1, 6)):
        f = None
        if r.random() < pf:
            f = {"kind": r.choice(["kernel", "interrupt", "interrupt",
                                   "alloc", "callback"]),
                 "name": "svd", "at": round(r.random(), 4)}
        ops.append([r.choice(OPS), r.randrange(1 << 30), f])
    return {"seed": seed, "ops": ops,
            "cfg": {"basis": r.random() < 0.5,
                    "keep": r.choice([0.0, 0.3, 0.6])}}


simplify = hist.simplify


# -------------------------------------------------------------------- data
def data(r, cfg, u):
    n = r.choice([2, 3, 5, 8, 12, 20])
    m = r.randint(1, 6)
    u["basis"] = u["eval"] = u["eval_test"] = u["x"] = u["xt"] = None
    if cfg["basis"]:
        lo, hi = r.choice([(-1, 1), (0, 1), (2, 5)])
        poly = tensap.UniformRandomVariable(lo, hi).orthonormal_polynomials()
        d = r.choice([1, 1, 2])
        if d == 2:
            h = tensap.FunctionalBases([Basis(poly, range(3)),
                                        Basis(poly, range(3))])
            u["basis"] = tensap.SparseTensorProductFunctionalBasis(
                h, tensap.MultiIndices.with_bounded_norm(2, 1, r.choice(
                    [1, 2])))
        else:
            u["basis"] = Basis(poly, range(r.randint(1, 7)))

        def pts(k):
            x = np.array([[r.uniform(lo, hi) for _ in range(d)]
                          for _ in range(k)])
            return x[:, 0] if d == 1 else x
        u["x"], u["xt"] = pts(n), pts(m)
        u["A"] = np.array(u["basis"].eval(u["x"]), float)
        u["At"] = np.array(u["basis"].eval(u["xt"]), float)
        if r.random() < 0.15:
            u["eval"] = u["A"].copy()
    else:
        p = r.randint(1, 7)
        s = 10.0 ** r.choice([0, 0, -3, 3])
        u["A"], u["At"] = g(r, [n, p]) * s, g(r, [m, p]) * s
        if r.random() < 0.2 and p > 1:
            u["A"][:, r.randrange(p)] = 0.0
        u["eval"], u["eval_test"] = u["A"].copy(), u["At"].copy()
        if r.random() < 0.2:
            u["eval"] = u["eval"][:, :, np.newaxis]
    p = u["A"].shape[1]
    u["b"] = g(r, [p]) * (np.max(np.abs(u["A"])) + 1e-3) \
        if r.random() < 0.4 else None
    form = r.choice(["list", "pair"]) if u["b"] is None else "offset"
    if u["b"] is None and r.random() < 0.3:
        form = "points"                    # the sample itself
    x = u["x"]
    if u["b"] is not None:
        b = u["b"]
        u["data"] = [x, b if r.random() < 0.7 else b.reshape(-1, 1)]
    elif form == "points":
        u["data"] = x
    else:
        u["data"] = [x] if form == "list" else [x, []]
    u["form"] = form
    u["tdata"] = u["xt"] if u["xt"] is not None and r.random() < 0.5 else \
        [u["xt"]]


def settings(r, mode, u):
    p = u["A"].shape[1]
    u["mode"] = mode
    u["est"] = r.random() < 0.7
    u["test"] = r.random() < 0.4
    u["adapt"] = mode == "path"
    u["reg"] = mode == "sorted" or mode == "path" and r.random() < 0.2
    u["included"] = None
    u["path"] = None
    if r.random() < 0.4:
        u["included"] = sorted(r.sample(range(p), r.randint(1, p)))
        if r.random() < 0.5:
            u["included"] = u["included"][:1]
    if mode == "path" and r.random() < 0.75:
        q = r.randint(1, 6)
        path = np.array([[r.random() < 0.5 for _ in range(q)]
                         for _ in range(p)])
        if q > 1 and r.random() < 0.3:
            path[:, 1] = path[:, 0]
        if r.random() < 0.3:
            path = path * np.array([[r.choice([1.0, 0.5, 2.0])] * q] * p)
        u["path"] = path
    u["stop"] = r.random() < 0.2
    u["keep_evals"] = u["eval"] is None


def apply(s, u):
    s.basis = u["basis"]
    if u["eval"] is not None or s.basis_eval is not None:
        s.basis_eval = u["eval"]
    if u["eval_test"] is not None or s.basis_eval_test is not None:
        s.basis_eval_test = u["eval_test"]
    s.training_data = u["data"]
    s.test_data = u["tdata"]
    s.regularization = u["reg"]
    s.regularization_options = {"alpha": 0} if u["included"] is None else {
        "included_coefficients": u["included"]}
    s.basis_adaptation = u["adapt"]
    s.basis_adaptation_path = u["path"]
    s.error_estimation = u["est"]
    s.test_error = u["test"]
    s.model_selection_options = {"stop_if_error_increase": u["stop"]}


# ------------------------------------------------------------------- truth
def risk_loo(A, b):
    """Mean risk at each sample of the density refitted without it."""
    n = len(A)
    C = (np.sum(A, 0) - A) / (n - 1) - b
    return float(np.mean(np.sum(C ** 2, 1) - 2 * np.sum(A * C, 1)
                         + 2 * C @ b))


def same(got, want, scale, cls, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.size != want.size or not np.all(np.isfinite(got)) or not np.all(
            np.abs(got.reshape(-1) - want.reshape(-1)) <= 1e-9 * scale):
        raise Violation(cls, "%s: %s, expected %s" % (
            what, np.ravel(got)[:8], np.ravel(want)[:8]))


def check(u, sol, out, ctx):
    A = u["A"]
    n, p = A.shape
    b = np.zeros(p) if u["b"] is None else u["b"]
    full = np.mean(A, 0) - b
    top = float(np.max(np.abs(A)) + np.max(np.abs(b))) + 1e-300
    scale = 1e2 * p * top ** 2
    coef = sol
    if u["basis"] is not None:
        if not isinstance(sol, tensap.FunctionalBasisArray):
            raise Violation("type", type(sol).__name__)
        coef = sol.data
    coef = np.asarray(coef, float)
    if coef.size != p:
        raise Violation("shape", "%s coefficients for %d functions" % (
            coef.shape, p))
    coef = coef.reshape(-1)
    mode = u["mode"]
    path = pats = None
    if u["adapt"]:
        path = u["path"] if u["path"] is not None else np.triu(
            np.ones((p, p)))
        pats = []
        for c in (np.asarray(path) != 0).T.tolist():
            if any(c) and c not in pats and sum(c) <= n:
                pats.append(c)
        if not pats:
            path = None
    if not u["reg"] and not u["adapt"] or u["adapt"] and not pats:
        same(coef, full, top, "optimal", mode)
        if u["est"]:
            same(out["error"], risk_loo(A, b), scale, "error",
                 "leave-one-out risk")
            ctx.probe("leave-one-out risk checked")
    elif not u["adapt"] and u["included"] is not None and \
            len(u["included"]) == p:
        same(coef, full, top, "optimal", mode)
    else:
        pp = np.asarray(out["pattern_path"]).astype(bool)
        errs = np.asarray(out["error_path"], float)
        sols = np.asarray(out["solution_path"], float)
        q = errs.size
        if pp.shape != (p, q) or sols.shape != (p, q):
            raise Violation("path", "%s patterns, %s solutions, %d errors" % (
                pp.shape, sols.shape, q))
        if u["adapt"]:
            got = pp.T.tolist()
            # a coefficient that is exactly 0 leaves no trace
            want = [[bool(x) for x in c] for c in pats]
            if got != want:
                raise Violation("path", "patterns %s instead of %s" % (
                    got, want))
            sets = pats
        else:
            sets = sorted_sets(u, full, pp, sols, top)
        for i, c in enumerate(sets):
            c = np.array(c, bool)
            same(sols[:, i], np.where(c, full, 0), top, "optimal",
                 "model %d of the path" % i)
            if u["adapt"] and u["stop"] and np.isinf(errs[i]):
                continue
            same(errs[i], risk_loo(A[:, c], b[c]), scale, "error",
                 "leave-one-out risk of model %d" % i)
        k = int(out["ind"])
        if not 0 <= k < q or errs[k] != np.min(errs):
            raise Violation("selection", "model %d selected, errors %s" % (
                k, errs))
        if float(out["error"]) != errs[k] or not np.array_equal(
                np.asarray(out["pattern"]).astype(bool), pp[:, k]) or \
                not np.array_equal(np.ravel(out["optimal_solution"]),
                                   sols[:, k]):
            raise Violation("selection", "the selected model is not the one "
                            "reported")
        if not np.array_equal(coef, sols[:, k]):
            raise Violation("selection", "the solution returned is not the "
                            "selected one")
        ctx.probe("selection checked")
    if u["test"]:
        if "test_error" not in out:
            raise Violation("test", "no test error")
        same(out["test_error"], np.sum(coef ** 2) - 2 * np.mean(
            u["At"] @ coef), scale + 1e2 * p * np.max(np.abs(u["At"])) ** 2,
            "test", "test error")
        ctx.probe("test error checked")
    if u["basis"] is not None:
        same(np.asarray(sol(u["xt"]), float), u["At"] @ coef, top * 1e2 * p,
             "model", "values of the model returned")


def sorted_sets(u, full, pp, sols, top):
    """The sets tried: the largest coefficients first."""
    p, q = pp.shape
    incl = u["included"] or []
    rest = [i for i in range(p) if i not in incl]
    if q != len(rest) + bool(u["included"]):
        raise Violation("path", "%d models along the path of %d functions" % (
            q, len(rest)))
    a = np.abs(full)
    sets = []
    if u["included"]:
        sets.append([i in incl for i in range(p)])
    order = sorted(rest, key=lambda i: -a[i])
    for k in range(1, len(rest) + 1):
        # which ones, when the sizes nearly tie, is told by the solution
        cut = a[order[k - 1]]
        sure = [i for i in rest if a[i] > cut + 1e-12 * top]
        tied = [i for i in rest if i not in sure and a[i] >= cut
                - 1e-12 * top]
        col = sols[:, len(sets)]
        pick = [i for i in tied if col[i] != 0]
        if len(sure) + len(tied) == k:
            pick = tied
        elif len(pick) + len(sure) > k:
            raise Violation("path", "model of %d functions uses more" % k)
        s = set(incl) | set(sure) | set(pick)
        sets.append([i in s for i in range(p)])
    return sets


# --------------------------------------------------------------------- run
def run(case, ctx):
    with hist.quiet():
        _run(case, ctx)


def _run(case, ctx):
    cfg = case["cfg"]
    solver = tensap.LinearModelLearningDensityL2()
    u = {}
    faulty = any(o[2] for o in case["ops"])
    ctx.config = "%s/%s" % ("basis" if cfg["basis"] else "matrix",
                            "faults" if faulty else "fault-free")
    for mode, seed, fault in case["ops"]:
        r = random.Random(seed)
        if "A" not in u or r.random() >= cfg["keep"]:
            data(r, cfg, u)
        settings(r, mode, u)
        step(solver, u, r, fault, ctx)


def call(s, rs):
    RANDOM.seed(rs)
    return s.solve()


def step(solver, u, r, fault, ctx):
    Basis.armed[0] = False
    apply(solver, u)
    rs = r.randrange(1 << 30)
    before = snap([solver, u])
    name = u["mode"]

    def unchanged(when):
        d = diff(before, snap([solver, u]))
        if d:
            raise Violation("input", "%s changed the solver or its data at %s"
                            "%s" % (name, d, when))

    if fault is not None and fault["kind"] == "callback":
        ctx.plan("callback")
        if u["basis"] is not None and u["eval"] is None:
            Basis.armed[0] = True
            try:
                call(solver, rs)
                if not Basis.armed[0]:
                    raise Violation("swallowed", "the exception of the basis "
                                    "did not reach the caller")
            except CallbackError:
                ctx.fault("callback")
            finally:
                Basis.armed[0] = False
            unchanged(" when it failed")
    elif fault is not None:
        nl, kern, _ = ctx.measure(lambda: call(copy.deepcopy(solver), rs))
        res, err, fired = ctx.faulty(fault, lambda: call(solver, rs), nl, kern)
        if res is not None:
            check(u, res[0], res[1], ctx)
        elif err is not None and not isinstance(
                err, (np.linalg.LinAlgError, MemoryError,
                      KeyboardInterrupt)) and not type(
                    err).__name__.startswith("Sim"):
            raise Violation("raised", "%s: a failure of %s became %s: %s" % (
                name, fault["kind"], type(err).__name__, err))
        unchanged(" when it failed")
    try:
        sol, out = call(solver, rs)
    except Exception as e:
        raise Violation("raised", "%s raised %s: %s" % (
            name, type(e).__name__, e))
    unchanged("")
    check(u, sol, out, ctx)
    fresh = tensap.LinearModelLearningDensityL2()
    apply(fresh, copy.deepcopy(u))
    sol2, out2 = call(fresh, rs)
    d = diff(snap([sol, out]), snap([sol2, out2]))
    if d:
        raise Violation("history", "%s with a used solver differs from a "
                        "fresh solver at %s" % (name, d))
    ctx.op(name)
    ctx.log(name, snap([sol, out]))
    ctx.mark(name, u["form"], u["est"], u["test"], u["stop"],
             u["included"] is not None, fault and fault["kind"])
