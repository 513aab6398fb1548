"""P10: least-squares learning keeps its answers when kernels fail."""
import copy
import itertools
import random

import numpy as np

from . import hist
from .core import RANDOM, Violation, snap, diff, tensap
from .dense import g

PROP = "P10"
CASES = {"quick": 3500, "thorough": 160000}
LINE_BUDGET = 20_000_000
DRAW_BUDGET = 400_000
RULE = ("a case is one LinearModelLearningSquareLoss object and a seeded "
        "history of 1-5 fits in which data, weights, bases, evaluations, "
        "solver, regularisation, adaptation path, error estimation and test "
        "data change; kernels fail once or for good, the basis raises, calls "
        "are cut short and retried; non-trivial when a fit completed; "
        "distinct by (mode, design, outputs, error type, solver, fired "
        "faults)")
MEASURE = ("distinct sequences of (mode, design, error type, selected model, "
           "fault)")
REAL = ["tensap LinearModelLearningSquareLoss, FunctionalBasisArray, bases, "
        "loss functions, scikit-learn paths and folds"]
STUBS = ["numpy.random (seeded)",
         "numpy.linalg kernels (real, made to fail on command)",
         "basis evaluation (real, made to raise on command)"]
OPS = ["ols", "ols", "ols", "path", "path", "l1", "l0", "l2"]
KERN = ["solve", "qr", "inv", "lstsq", "svd", "pinv", "cond"]


class CallbackError(Exception):
    pass


class Basis(tensap.PolynomialFunctionalBasis):
    """Polynomials whose evaluation can be made to fail."""
    armed = [False]

    def eval(self, x):
        if Basis.armed[0]:
            Basis.armed[0] = False
            raise CallbackError("the basis failed")
        return super().eval(x)


def gen(seed, tier):
    r = random.Random(seed)
    pf = r.choice([0.0, 0.3, 0.7])
    ops = []
    for _ in range(r.randint(1, 5)):
        f = None
        if r.random() < pf:
            f = {"kind": r.choice(["kernel", "kernel", "kernels", "kernels",
                                   "interrupt", "alloc", "callback"]),
                 "name": r.choice(KERN), "at": round(r.random(), 4)}
        ops.append([r.choice(OPS), r.randrange(1 << 30), f])
    return {"seed": seed, "ops": ops,
            "cfg": {"basis": r.random() < 0.45,
                    "keep": r.choice([0.0, 0.3, 0.6])}}


simplify = hist.simplify


# -------------------------------------------------------------------- data
def data(r, cfg, mode, u):
    """New training data, evaluations and test data."""
    n_out = r.choice([1, 1, 1, 1, 2, 3])
    flat = n_out == 1 and r.random() < 0.7
    p = r.randint(1, 7)
    n = max(2, p + r.choice([-2, 0, 1, 2, 3, 5, 8, 12]))
    if mode in ("l1", "l0", "l2"):
        n = max(n, p + 2)
    u["design"] = "plain"
    sx = 10.0 ** r.choice([0, 0, 0, -3, 3])
    sy = 10.0 ** r.choice([0, 0, 0, -3, 3])
    m = max(2, r.randint(2, 6))
    u["basis"] = u["eval"] = u["eval_test"] = None
    if cfg["basis"]:
        lo, hi = r.choice([(-1, 1), (0, 1), (2, 5)])
        X = tensap.UniformRandomVariable(lo, hi)
        poly = X.orthonormal_polynomials()
        x = np.array([r.uniform(lo, hi) for _ in range(n)])
        xt = np.array([r.uniform(lo, hi) for _ in range(m)])
        if r.random() < 0.3:
            d = 2
            h = tensap.FunctionalBases([Basis(poly, range(3)),
                                        Basis(poly, range(3))])
            h = tensap.SparseTensorProductFunctionalBasis(
                h, tensap.MultiIndices.with_bounded_norm(d, 1, r.choice(
                    [1, 2])))
            x = np.array([[r.uniform(lo, hi) for _ in range(d)]
                          for _ in range(n)])
            xt = np.array([[r.uniform(lo, hi) for _ in range(d)]
                           for _ in range(m)])
        else:
            h = Basis(poly, range(p))
        if mode in ("l1", "l0", "l2"):
            more = max(0, h.cardinal() + 2 - len(x))
            x = np.concatenate([x, np.array(
                [r.uniform(lo, hi) for _ in range(more * x[0].size)]
            ).reshape((more,) + x.shape[1:])])
        n, p = len(x), h.cardinal()
        u["basis"], u["x"], u["xt"] = h, x, xt
        A = h.eval(x)
        At = h.eval(xt)
        u["given_eval"] = r.random() < 0.2
        if u["given_eval"]:
            u["eval"] = A.copy()
            if r.random() < 0.5:
                u["eval_test"] = At.copy()
    else:
        three = n_out > 1 and r.random() < 0.4
        A = g(r, [n, p]) * sx
        At = g(r, [m, p]) * sx
        kind = r.choice(["plain"] * 5 + ["dup", "zero", "low"])
        if three:
            A = g(r, [n, p, n_out])
            At = g(r, [m, p, n_out])
            kind = "3d"
        elif mode in ("l1", "l0", "l2"):
            kind = "plain"
        elif kind == "dup" and p > 1:
            i, j = r.sample(range(p), 2)
            A[:, i] = A[:, j] * r.choice([1.0, -2.0, 1.0])
        elif kind == "zero":
            A[:, r.randrange(p)] = 0.0
        elif kind == "low" and p > 2:
            A = np.matmul(A[:, :p - 2], g(r, [p - 2, p]))
        else:
            kind = "plain"
        u["design"] = kind
        u["eval"], u["eval_test"] = A, At
        u["x"] = u["xt"] = None
    if u["design"] == "3d":
        c = g(r, [p])
        y = np.tensordot(A, c, axes=([1], [0]))
        yt = np.tensordot(At, c, axes=([1], [0]))
    else:
        c = g(r, [p, n_out])
        y, yt = A @ c, At @ c
    noise = r.choice([0.0, 0.1, 1.0, 1.0])
    if r.random() < 0.05:
        y = y * 0.0
    y = (y + noise * max(float(np.max(np.abs(y))), 0.1) * g(
        r, y.shape)) * sy
    yt = (yt + noise * g(r, yt.shape)) * sy
    if flat and y.ndim == 2 and u["design"] != "3d":
        y, yt = y[:, 0], yt[:, 0]
    u["y"], u["yt"] = y, yt
    u["N"], u["P"] = n, p
    u["weights"] = None
    if r.random() < 0.25:
        w = np.array([r.choice([0.25, 1.0, 2.0, 9.0, r.uniform(0.1, 3)])
                      for _ in range(n)])
        u["weights"] = list(w) if r.random() < 0.3 else w


def settings(r, mode, u):
    u["mode"] = mode
    u["solver"] = r.choice(["qr", "qr", "solve"])
    u["reg"] = mode in ("l0", "l1", "l2")
    u["reg_type"] = mode if u["reg"] else r.choice(["l0", "l1", "l2"])
    u["adapt"] = mode == "path"
    u["select"] = r.random() < 0.7
    u["options"] = {}
    u["path"] = None
    p = u["P"]
    if mode == "l1":
        u["reg_options"] = {"alpha": r.choice([0, 0, 0.001, 0.05])}
    elif mode == "l2":
        u["reg_options"] = {"alpha": r.choice([1e-3, 0.1, 2.0])}
    else:
        u["reg_options"] = {"alpha": 0}
    if u["reg"] and u["select"] and mode != "l2" and r.random() < 0.15:
        u["options"] = {"non_zero_blocks": [[r.randrange(p)]]}
    if mode == "path" and r.random() < 0.7:
        q = r.randint(1, 6)
        path = np.array([[r.random() < 0.5 for _ in range(q)]
                         for _ in range(p)])
        if q > 1 and r.random() < 0.3:
            path[:, 1] = path[:, 0]
        if r.random() < 0.3:
            path = path * np.array([[r.choice([1.0, 0.5, 2.0])] * q] * p)
        u["path"] = path
    u["est"] = r.random() < 0.65
    u["est_type"] = r.choice(["leave_out", "leave_out", "k_fold", "k_fold",
                              "residuals"])
    if mode == "path" or u["reg"] and u["select"]:
        u["est_type"] = r.choice(["leave_out", "leave_out", "k_fold"])
    u["est_options"] = {"correction": r.random() < 0.5}
    if u["est_type"] == "k_fold" and r.random() < 0.8:
        n = u["N"] * (u["y"].shape[1] if u["design"] == "3d" else 1)
        u["est_options"]["number_of_folds"] = r.choice(
            [2, 3, max(2, n // 2), max(2, n // 3), n])
    if r.random() < 0.2:
        s = g(r, [p, p])
        u["est_options"]["gram_matrix"] = s @ s.T
    u["test"] = r.random() < 0.4
    u["error_type"] = r.choice(["relative", "relative", "absolute"])


def apply(s, u):
    s.basis = u["basis"]
    s.basis_eval = u["eval"]
    s.basis_eval_test = u["eval_test"]
    s.training_data = [u["x"], u["y"]]
    s.test_data = [u["xt"], u["yt"]]
    s.weights = u["weights"]
    s.linear_solver = u["solver"]
    s.regularization = u["reg"]
    s.regularization_type = u["reg_type"]
    s.regularization_options = u["reg_options"]
    s.options = u["options"]
    s.basis_adaptation = u["adapt"]
    s.basis_adaptation_path = u["path"]
    s.model_selection = u["select"]
    s.error_estimation = u["est"]
    s.error_estimation_type = u["est_type"]
    s.error_estimation_options = u["est_options"]
    s.test_error = u["test"]
    s.loss_function.error_type = u["error_type"]


# ------------------------------------------------------------------- truth
class Truth:
    """The design matrix, values and errors, from scratch."""

    def __init__(self, u):
        A = u["eval"] if u["eval"] is not None else u["basis"].eval(u["x"])
        y = u["y"]
        A = np.array(A, float)
        w = None if u["weights"] is None else np.array(u["weights"])
        if A.ndim == 3:
            k = A.shape[2]
            A = np.concatenate([A[:, :, j] for j in range(k)])
            y = np.concatenate([y[:, j] for j in range(k)])
            w = None if w is None else np.tile(w, k)
        y = np.array(y, float).reshape(len(A), -1)
        if w is not None:
            A = A * np.sqrt(w)[:, None]
            y = y * np.sqrt(w)[:, None]
        self.A, self.y = A, y
        self.N, self.P = A.shape
        self.n = y.shape[1]
        s = np.linalg.svd(A, compute_uv=False)
        self.smax = float(s[0]) if s.size else 0.0
        self.cond = float(s[0] / s[-1]) if s.size and s[-1] > 0 and \
            self.N >= self.P else np.inf


def minimiser(A, y, s, what, squared):
    """s minimises |A s - y|."""
    best = np.linalg.lstsq(A, y, rcond=1e-10)[0]
    r0 = np.linalg.norm(A @ best - y)
    r1 = np.linalg.norm(A @ s - y)
    sv = np.linalg.svd(A, compute_uv=False)
    pos = sv[sv > 1e-10 * max(sv[0], 1e-300)]
    c = float(pos[0] / pos[-1]) if pos.size else 1.0
    tol = 1e-10 * c * c if squared else 1e-10 * c
    if tol > 1e-3:
        return
    scale = np.linalg.norm(y)
    if not np.all(np.isfinite(s)) or not r1 <= r0 + tol * scale:
        raise Violation("residual", "%s: residual %.6e, the least possible "
                        "is %.6e" % (what, r1, r0))


def loo(A, y):
    """Held-out residuals, or None where the refit does not decide."""
    N = len(y)
    rank = np.linalg.matrix_rank(A, tol=1e-10 * max(np.linalg.norm(A), 1e-300))
    d = np.zeros(N)
    for i in range(N):
        keep = np.arange(N) != i
        sv = np.linalg.svd(A[keep], compute_uv=False)
        if rank and (len(sv) < rank or
                     sv[rank - 1] < 1e-5 * np.linalg.norm(A)):
            return None
        s = np.linalg.lstsq(A[keep], y[keep], rcond=1e-10)[0]
        d[i] = y[i] - A[i] @ s
    return d


def partition(A, y, delta, sizes):
    """Partitions into folds for which delta is what refitting leaves; None
    when that is not decided."""
    N = len(y)
    if N > 10 or max(sizes) > 3:
        return None
    scale = np.max(np.abs(y)) + 1e-300
    tol = 1e-5 * scale
    good = []
    for m in sorted(set(sizes)):
        for t in itertools.combinations(range(N), m):
            t = list(t)
            keep = [i for i in range(N) if i not in t]
            if len(keep) < A.shape[1]:
                continue
            sv = np.linalg.svd(A[keep], compute_uv=False)
            if sv[-1] < 1e-3 * np.linalg.norm(A):
                return None                  # some refit does not decide
            s = np.linalg.lstsq(A[keep], y[keep], rcond=None)[0]
            if np.max(np.abs(y[t] - A[t] @ s - delta[t])) <= tol:
                good.append(frozenset(t))
    found = []

    def cover(left, todo, chosen):
        if not left:
            found.append(chosen)
        if not left or len(found) > 50:
            return
        i = min(left)
        for t in good:
            if i in t and t <= left and len(t) in todo:
                rest = list(todo)
                rest.remove(len(t))
                cover(left - t, rest, chosen + [sorted(t)])
    cover(frozenset(range(N)), sorted(sizes), [])
    return found


def folds_of(u, N):
    if u["est_type"] == "leave_out":
        return N
    k = u["est_options"].get("number_of_folds", min(10, N))
    return min(N, k)


def fold_sizes(N, k):
    return [N // k + (1 if i < N % k else 0) for i in range(k)]


def check_error(u, A, y, s, err, delta, gram, what, ctx):
    """The cross-validation error of the least-squares solution s."""
    N, P = A.shape
    k = folds_of(u, N)
    if N * (1 - 1 / k) < P - 1e-9:
        if not np.isinf(err):
            raise Violation("error", "%s: error %.3e though no fold can be "
                            "refitted" % (what, err))
        return
    m2 = np.mean(y ** 2)
    if m2 == 0:
        return
    sv = np.linalg.svd(A, compute_uv=False)
    full = sv[-1] > 1e-3 * sv[0] if sv.size else True
    if not full and sv[-1] > 1e-13 * sv[0]:
        return
    C = np.linalg.pinv(A.T @ A, rcond=1e-10)
    corr = 1.0
    if u["est_options"]["correction"] and N != P:
        t = np.trace(C if gram is None else C @ gram)
        corr = N / (N - P) * (1 + t)
        if not corr > 0:
            corr = 1.0
    noise = 1e-9 * (sv[0] / sv[-1]) ** 2 if full else 1e-7
    noise = max(1e-7, noise) * np.sqrt(max(corr, 1.0))
    if k == N:
        d = loo(A, y)
        if d is None:
            return
        want = np.sqrt(np.mean(d ** 2) / m2)
        q = np.linalg.svd(A, full_matrices=False)[0][:, sv > 1e-10 * sv[0]]
        lev = 1 / max(1 - float(np.max(np.sum(q ** 2, 1))), 1e-12)
        noise *= lev
        if delta is not None and not np.max(np.abs(np.ravel(delta) - d)) <= \
                1e-5 * (np.max(np.abs(y)) + np.max(np.abs(d))) * lev:
            raise Violation("delta", "%s: the residuals reported are not those "
                            "of the refits: %s %s" % (
                                what, np.ravel(delta)[:6], d[:6]))
    else:
        if delta is None:
            return
        delta = np.ravel(delta)
        if not full or not np.all(np.isfinite(delta)):
            return
        sizes = fold_sizes(N, k)
        parts = partition(A, y, delta, sizes)
        if parts is not None and not parts:
            raise Violation("folds", "%s: no choice of %d folds leaves the "
                            "reported residuals" % (what, k))
        if N % k:
            # the mean over the folds of the mean over each fold
            if not parts:
                vals = [np.sum(delta ** 2) / k / max(sizes),
                        np.sum(delta ** 2) / k / min(sizes)]
            elif len(parts) > 50:
                return
            else:
                vals = [np.mean([np.mean(delta[t] ** 2) for t in c])
                        for c in parts]
            vals = [np.sqrt(v / m2 * corr) for v in vals]
            if not parts and not min(vals) * (1 - 1e-6) - noise <= err <= \
                    max(vals) * (1 + 1e-6) + noise or parts and not any(
                        abs(err - v) <= noise + 1e-5 * v for v in vals):
                raise Violation("error", "%s: %d-fold error %.6e, the "
                                "residuals give %s" % (what, k, err, vals))
            ctx.probe("k-fold error checked")
            return
        want = np.sqrt(np.mean(delta ** 2) / m2)
    ok = [want * np.sqrt(corr)] + ([] if full else [want])
    if not any(abs(err - v) <= noise + 1e-5 * v for v in ok):
        raise Violation("error", "%s: %s error %.8e, refitting gives %.8e" % (
            what, "leave-one-out" if k == N else "%d-fold" % k, err, ok[0]))
    ctx.probe("leave-one-out error checked" if k == N
              else "k-fold error checked")


def check_selection(u, T, y, s, out, ctx, patterns):
    """The output of a selection along a path, for one output."""
    pp = np.asarray(out["pattern_path"]).astype(bool)
    errs = np.asarray(out["error_path"], float)
    sols = np.asarray(out["solution_path_OLS"], float)
    deltas = np.asarray(out["delta_path"], float)
    q = pp.shape[1]
    if errs.shape != (q,) or pp.shape[0] != T.P:
        raise Violation("path", "path of %s patterns and %s errors" % (
            pp.shape, errs.shape))
    if patterns is not None:
        got = [tuple(c) for c in pp.T.tolist()]
        want = [tuple(c) for c in patterns]
        if got != want:
            raise Violation("path", "%d patterns tried, the path has %d" % (
                len(got), len(want)))
    gram = u["est_options"].get("gram_matrix")
    for i in range(q):
        idx = pp[:, i]
        if np.isinf(errs[i]) and not np.any(sols[:, i]):
            pass
        if np.any(sols[~idx, i] != 0):
            raise Violation("path", "a refit uses functions outside of its "
                            "pattern")
        minimiser(T.A[:, idx], y, sols[idx, i], "refit %d" % i,
                  u["solver"] == "solve")
        check_error(u, T.A[:, idx], y, sols[idx, i], errs[i], deltas[:, i],
                    None if gram is None else gram[np.ix_(idx, idx)],
                    "refit %d" % i, ctx)
    if np.any(np.isnan(errs)):
        return
    k = int(out["ind"])
    if not (0 <= k < q) or errs[k] != np.min(errs):
        raise Violation("selection", "model %d selected with error %s, the "
                        "path has %s" % (k, errs[k] if 0 <= k < q else None,
                                         np.min(errs)))
    if out["error"] != errs[k] or not np.array_equal(
            np.asarray(out["pattern"]).astype(bool), pp[:, k]):
        raise Violation("selection", "the selected model is not reported")
    if not np.array_equal(np.ravel(s), sols[:, k]) or not np.array_equal(
            np.ravel(out["optimal_solution"]), sols[:, k]):
        raise Violation("selection", "the solution returned is not the "
                        "selected one")
    ctx.probe("selection checked")


def unique_patterns(path, N):
    """Distinct non-zero patterns of at most N functions, in path order."""
    out = []
    for c in (np.asarray(path) != 0).T.tolist():
        c = tuple(c)
        if any(c) and c not in out:
            out.append(c)
    return [c for c in out if sum(c) <= N]


def check(u, sol, out, ctx):
    T = Truth(u)
    coef = sol
    if u["basis"] is not None:
        if not isinstance(sol, tensap.FunctionalBasisArray):
            raise Violation("type", type(sol).__name__)
        coef = sol.data
    coef = np.asarray(coef, float)
    if coef.size != T.P * T.n:
        raise Violation("shape", "coefficients of shape %s for %d functions "
                        "and %d outputs" % (coef.shape, T.P, T.n))
    coef = coef.reshape(T.P, T.n)
    mode = u["mode"]
    gram = u["est_options"].get("gram_matrix")
    for k in range(T.n):
        y, s = T.y[:, k], coef[:, k]
        o = out
        if T.n > 1 and mode != "ols":
            o = out["outputs"][k]
        what = "%s, output %d" % (mode, k)
        if mode == "ols":
            minimiser(T.A, y, s, what, u["solver"] == "solve")
            if u["est"] and u["est_type"] != "residuals":
                err = np.ravel(out["error"])
                if err.size != T.n:
                    raise Violation("error", "%d errors for %d outputs" % (
                        err.size, T.n))
                d = np.asarray(out["delta"], float)
                if d.size == T.N * T.n:
                    d = d.reshape(T.N, T.n)[:, k]
                else:
                    d = None
                check_error(u, T.A, y, s, err[k], d, gram, what, ctx)
            elif u["est"] and np.mean(y ** 2) > 0:
                err = np.ravel(out["error"])
                v = np.mean((y - T.A @ s) ** 2) / np.mean(y ** 2)
                if err.size != T.n or not min(
                        abs(err[k] - v), abs(err[k] - np.sqrt(v))) <= \
                        1e-6 * max(v, np.sqrt(v)) + 1e-9:
                    raise Violation("error", "residual error %s, it is %s" % (
                        err, v))
        elif mode == "path":
            path = u["path"] if u["path"] is not None else np.triu(
                np.ones((T.P, T.P)))
            pats = unique_patterns(path, T.N)
            if not pats:
                minimiser(T.A, y, s, what, u["solver"] == "solve")
            else:
                check_selection(u, T, y, s, o, ctx, pats)
        elif mode == "l2":
            a = u["reg_options"]["alpha"]
            M = T.A.T @ T.A + a * np.eye(T.P)
            want = np.linalg.solve(M, T.A.T @ y)
            tol = 1e-9 * np.linalg.cond(M)
            if tol < 1e-3 and not np.linalg.norm(s - want) <= \
                    tol * np.linalg.norm(want) + 1e-300:
                raise Violation("ridge", "%s: not the ridge solution" % what)
        else:
            check_sparse(u, T, y, s, o, mode, what, ctx)
        if T.n > 1 and mode == "path" and "error" in o:
            if not np.isnan(o["error"]) and \
                    np.ravel(out["error"])[k] != o["error"]:
                raise Violation("error", "the error of output %d is not the "
                                "reported one" % k)
    if u["test"]:
        check_test(u, T, coef, out, ctx)
    if u["basis"] is not None and u["xt"] is not None:
        v = np.asarray(sol(u["xt"]), float)
        w = u["basis"].eval(u["xt"]) @ coef
        if v.size != w.size or not np.max(np.abs(
                v.reshape(w.shape) - w)) <= 1e-10 * (np.max(np.abs(w)) + 1e-9):
            raise Violation("model", "the model returned evaluates to other "
                            "values than its coefficients")


def check_sparse(u, T, y, s, o, mode, what, ctx):
    import warnings
    from sklearn import linear_model
    if T.cond > 1e4 or np.mean(y ** 2) == 0:
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if mode == "l1":
            reg = linear_model.LassoLars(copy_X=True, fit_intercept=False,
                                         **u["reg_options"])
            reg.fit(T.A, y)
            path, last = np.asarray(reg.coef_path_), reg.coef_
        else:
            D = np.linalg.norm(T.A, axis=0)
            D[D == 0] = 1
            path = linear_model.orthogonal_mp(
                T.A / D, y, copy_X=True, n_nonzero_coefs=min(T.N, T.P),
                return_path=True)
            path = np.reshape(path, (T.P, -1)) / D[:, None]
            last = path[:, -1]
    if u["select"] and np.linalg.norm(path) and path.shape[1] > 1:
        if "non_zero_blocks" in u["options"]:
            rep = np.any(path, 0)
            for b in u["options"]["non_zero_blocks"]:
                rep = rep & np.any(path[b, :], 0)
            path = path[:, rep]
        pats = unique_patterns(path, T.N)
        tiny = 1e-9 * np.max(np.abs(path), initial=0.0)
        for a in (path, np.asarray(o.get("solution_path", 0.0), float)):
            if np.any((a != 0) & (np.abs(a) < tiny)):
                pats = pats and None         # rounding decides the path
        if pats == []:
            minimiser(T.A, y, s, what, u["solver"] == "solve")
        else:
            check_selection(u, T, y, s, o, ctx, pats)
        return
    if not np.linalg.norm(s - last) <= 1e-7 * np.linalg.norm(last) + 1e-12:
        raise Violation("sparse", "%s: not the %s solution" % (what, mode))
    ctx.probe("sparse solution checked")


def check_test(u, T, coef, out, ctx):
    At = u["eval_test"] if u["eval_test"] is not None else \
        u["basis"].eval(u["xt"])
    yt = np.asarray(u["yt"], float)
    if "test_error" not in out:
        raise Violation("test", "no test error reported")
    if np.ndim(At) == 3:
        p = np.tensordot(At, coef[:, 0], axes=([1], [0]))
        pairs = [(p, yt)]
    else:
        p = At @ coef
        yt = yt.reshape(len(At), -1)
        pairs = [(p[:, k], yt[:, k]) for k in range(T.n)]
    got = np.ravel(np.asarray(out["test_error"], float))
    if got.size != len(pairs):
        raise Violation("test", "%d test errors for %d outputs" % (
            got.size, len(pairs)))
    for k, (a, b) in enumerate(pairs):
        if u["error_type"] == "relative":
            if not np.any(b):
                continue
            want = np.linalg.norm(a - b) / np.linalg.norm(b)
        else:
            want = np.linalg.norm(a - b) / np.sqrt(len(a))
        if not abs(got[k] - want) <= 1e-9 * max(want, np.linalg.norm(
                a) / max(np.linalg.norm(b), 1e-300), 1e-12):
            raise Violation("test", "test error %.6e reported, it is %.6e" % (
                got[k], want))
    ctx.probe("test error checked")


# --------------------------------------------------------------------- run
def run(case, ctx):
    with hist.quiet():
        _run(case, ctx)


def _run(case, ctx):
    cfg = case["cfg"]
    solver = tensap.LinearModelLearningSquareLoss()
    u = {}
    faulty = any(o[2] for o in case["ops"])
    ctx.config = "%s/%s" % ("basis" if cfg["basis"] else "matrix",
                            "faults" if faulty else "fault-free")
    for mode, seed, fault in case["ops"]:
        r = random.Random(seed)
        v = u.get("P")
        if v is None or r.random() >= cfg["keep"] or (
                mode in ("l1", "l0", "l2") and (
                    u["design"] != "plain" or u["N"] < u["P"] + 2)):
            data(r, cfg, mode, u)
        settings(r, mode, u)
        step(solver, u, r, fault, ctx)


def call(s, rs):
    RANDOM.seed(rs)
    return s.solve()


def step(solver, u, r, fault, ctx):
    Basis.armed[0] = False
    apply(solver, u)
    rs = r.randrange(1 << 30)
    before = snap([solver, u])
    name = u["mode"]

    def unchanged(when):
        d = diff(before, snap([solver, u]))
        if d:
            raise Violation("input", "%s changed the solver or its data at %s"
                            "%s" % (name, d, when))

    if fault is not None:
        if fault["kind"] == "callback":
            ctx.plan("callback")
            if u["basis"] is not None and u["eval"] is None:
                Basis.armed[0] = True
                try:
                    call(solver, rs)
                    if not Basis.armed[0]:
                        raise Violation("swallowed", "the exception of the "
                                        "basis did not reach the caller")
                except CallbackError:
                    ctx.fault("callback")
                finally:
                    Basis.armed[0] = False
        else:
            nl, kern, _ = ctx.measure(
                lambda: call(copy.deepcopy(solver), rs))
            res, err, fired = ctx.faulty(
                fault, lambda: call(solver, rs), nl, kern)
            if res is not None:
                ctx.probe("answered in spite of a failure")
                check(u, res[0], res[1], ctx)
            elif err is not None and not isinstance(
                    err, (np.linalg.LinAlgError, MemoryError,
                          KeyboardInterrupt)) and not type(
                        err).__name__.startswith("Sim"):
                raise Violation("raised", "%s: a failure of %s became %s: %s"
                                % (name, fault["kind"], type(err).__name__,
                                   err))
        unchanged(" when it failed")
    try:
        sol, out = call(solver, rs)
    except np.linalg.LinAlgError as e:
        if singular_fold(u):
            ctx.probe("singular fold: gave up")
            unchanged(" when it raised")
            return
        raise Violation("raised", "%s: %s" % (name, e))
    except Exception as e:
        raise Violation("raised", "%s raised %s: %s" % (
            name, type(e).__name__, e))
    unchanged("")
    check(u, sol, out, ctx)
    # a fresh solver gives the same
    fresh = tensap.LinearModelLearningSquareLoss()
    apply(fresh, copy.deepcopy(u))
    sol2, out2 = call(fresh, rs)
    d = diff(snap([sol, out]), snap([sol2, out2]))
    if d:
        raise Violation("history", "%s with a used solver differs from a "
                        "fresh solver at %s" % (name, d))
    ctx.op(name)
    ctx.log(name, snap([sol, out]))
    ctx.mark(name, u["design"], u["N"] - u["P"], u["solver"], u["est_type"],
             np.ndim(u["y"]), fault and fault["kind"])


def singular_fold(u):
    """A fold can leave fewer independent rows than functions."""
    return u["est_type"] == "k_fold" and (
        u["design"] not in ("plain", "3d"))
