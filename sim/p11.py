"""P11: tensor learning returns the model it reports."""
import copy
import random

import numpy as np

from . import hist, learn
from .core import RANDOM, Violation, snap, diff, tensap

PROP = "P11"
CASES = {"quick": 450, "thorough": 60000}
LINE_BUDGET = 60_000_000
DRAW_BUDGET = 400_000
RULE = ("a case is a learning problem (format, tree, bases, data) and a seeded "
        "history of 1-3 fits of one solver object whose data, settings, "
        "initialisation, exploration and random draws change; kernels may "
        "fail; non-trivial when a fit completed; distinct by (format, "
        "initialisation, adaptation, selection, error type, ranks)")
MEASURE = ("distinct sequences of (format, initialisation, adaptation, "
           "selection, number of iterates, ranks)")
REAL = ["tensap TreeBasedTensorLearning, CanonicalTensorLearning, "
        "LinearModelLearningSquareLoss, tensors, trees, bases"]
STUBS = ["numpy.random and random.shuffle (seeded, extreme values)",
         "numpy.linalg kernels (real, made to fail on command)"]


def gen(seed, tier):
    r = random.Random(seed)
    pf = r.choice([0.0, 0.0, 0.4])
    ops = []
    for _ in range(r.choice([1, 1, 2, 3])):
        f = None
        if r.random() < pf:
            f = {"kind": r.choice(["kernel", "kernel", "kernels"]),
                 "name": r.choice(["solve", "inv", "lstsq", "cond"]),
                 "at": round(r.random(), 4)}
        ops.append(["fit", r.randrange(1 << 30), f])
    return {"seed": seed, "ops": ops,
            "cfg": {"keep": r.choice([0.0, 0.4]),
                    "adv": r.choice([0.0, 0.0, 0.0, 0.1])}}


simplify = hist.simplify


def run(case, ctx):
    with hist.quiet():
        _run(case, ctx)


def _run(case, ctx):
    cfg = case["cfg"]
    r0 = random.Random(case["seed"])
    u = learn.world(r0, density=0.15)
    solver = learn.make_solver(u)
    ctx.config = "%s/%s" % (u["fmt"], "faults" if any(
        o[2] for o in case["ops"]) else "fault-free")
    for name, seed, fault in case["ops"]:
        r = random.Random(seed)
        if "y" not in u or r.random() >= cfg["keep"]:
            learn.data(r, u, u["fmt"])
        learn.settings(r, u)
        step(solver, u, r, fault, cfg, ctx)


def call(s, rs, adv):
    RANDOM.seed(rs)
    RANDOM.adv = random.Random(rs) if adv else None
    RANDOM.p = adv
    try:
        return s.solve()
    finally:
        RANDOM.adv, RANDOM.p = None, 0.0


GIVEN = ["bases", "bases_eval", "bases_eval_test", "x", "y", "xt", "yt",
         "tree", "active", "guess", "path", "rank", "model", "H", "Ht"]


def given(u):
    return snap({k: u.get(k) for k in GIVEN})


def step(solver, u, r, fault, cfg, ctx):
    learn.apply(solver, u)
    rs = r.randrange(1 << 30)
    before = given(u)
    what = "%s/%s/%s" % (u["fmt"], u["init"], u["adaptation"])
    if fault is not None:
        nl, kern, _ = ctx.measure(
            lambda: call(copy.deepcopy(solver), rs, cfg["adv"]))
        res, err, fired = ctx.faulty(
            fault, lambda: call(solver, rs, cfg["adv"]), nl, kern)
    else:
        res = err = None
        try:
            res = call(solver, rs, cfg["adv"])
        except Exception as e:
            err = e
    d = diff(before, given(u))
    if d:
        raise Violation("input", "%s changed what the user gave at %s" % (
            what, d))
    if err is not None:
        if fault is None or not isinstance(err, np.linalg.LinAlgError):
            if not excused(u, err):
                raise Violation("raised", "%s raised %s: %s" % (
                    what, type(err).__name__, err))
        ctx.probe("raised " + type(err).__name__)
        return
    f, out = res
    if out.get("flag") == -2:
        u["limit"] = None
    check(u, f, out, what, ctx)
    if fault is None:
        fresh = learn.make_solver(u)
        learn.apply(fresh, u)
        f2, out2 = call(fresh, rs, cfg["adv"])
        d = diff(snap([f.tensor, clean(out)]), snap([f2.tensor, clean(out2)]))
        if d:
            raise Violation("history", "%s with a used solver differs from a "
                            "fresh solver at %s" % (what, d))
    ctx.op("fit")
    ctx.log("fit", snap(f.tensor))
    ranks = list(np.ravel(f.tensor.ranks)) if u["fmt"] == "tree" else \
        len(f.tensor.core.data)
    ctx.mark(u["fmt"], u["init"], u["adaptation"], u["select"], str(ranks),
             len(out.get("iterates", [])), fault and fault["kind"])


def clean(out):
    return {k: v for k, v in out.items() if k not in ("flag",)}


def excused(u, err):
    # the model cannot be refitted without a fold
    return isinstance(err, np.linalg.LinAlgError) and \
        u["lm"]["type"] == "k_fold"


def same(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float),
                          equal_nan=True)


def check(u, f, out, what, ctx):
    if not isinstance(f, tensap.FunctionalTensor):
        raise Violation("type", type(f).__name__)
    c = learn.coefficients(f, u)
    if not np.all(np.isfinite(c)):
        raise Violation("finite", "%s: the model is not finite" % what)
    # the model evaluates to what its coefficients say
    if u["bases"] is not None:
        X = [np.hstack([h]) for h in u["Ht"]]
        if u["xt"] is not None:
            v = np.asarray(f(u["xt"]), float)
            w = learn.khatri(X, c)
            m = learn.magnitude(f, X)
            if v.size != w.size or not np.max(np.abs(
                    v.reshape(w.shape) - w)) <= 1e-9 * m + 1e-300:
                raise Violation("model", "%s: the model evaluates to other "
                                "values than its coefficients" % what)
    nm, cm = float(f.tensor.norm()), float(np.linalg.norm(c))
    if not abs(nm - cm) <= 1e-8 * np.sqrt(c.size) * np.max(
            np.asarray(learn.dense(f.tensor, absolute=True), float)):
        raise Violation("norm", "%s: the model says its norm is %.8e, its "
                        "coefficients have %.8e" % (what, nm, cm))
    its = [x for x in list(out.get("iterates", []))]
    standard = u["adaptation"] in (None, "standard") and \
        u["algorithm"] == "standard"
    if u["store"] or u["select"]:
        if not its and standard:
            raise Violation("iterates", "%s: no iterate stored" % what)
        ctx.probe("iterates stored", len(its))
    cs = [learn.coefficients(x, u) for x in its]
    # test errors
    if u["test"] and "test_error" in out:
        te = learn.test_error(c, u)
        near(out["test_error"], te, f, u, "%s: test error" % what)
        ctx.probe("test error checked")
    elif u["test"] and standard:
        raise Violation("missing", "%s: no test error reported" % what)
    errs = out.get("test_error_iterations")
    if u["test"] and cs and errs is not None:
        if len(errs) != len(cs):
            raise Violation("iterates", "%s: %d iterates, %d test errors" % (
                what, len(cs), len(errs)))
        for k, (x, ck) in enumerate(zip(its, cs)):
            near(errs[k], learn.test_error(ck, u), x, u,
                 "%s: test error of iterate %d" % (what, k))
        ctx.probe("iterate errors checked", len(cs))
    cv = out.get("error_iterations")
    asked = u["lm"]["est"] or u["est"] or u["select"] == "cv_error"
    if not asked:
        cv = None   # errors of some of the iterates only
    if asked:
        if standard and not (cv is not None and len(cv)):
            raise Violation("missing", "%s: no error reported" % what)
    if cs and cv is not None and len(cv):
        if len(cv) != len(cs):
            raise Violation("iterates", "%s: %d iterates, %d errors" % (
                what, len(cs), len(cv)))
    # selection
    sel = u["select"]
    if sel == "test_error" and not u["test"]:
        sel = None
    if sel and cs:
        path = errs if sel == "test_error" else cv
        k = int(out["selected_model_number"])
        path = np.asarray(path, float)
        if not np.any(np.isnan(path)):
            if path[k] != np.min(path):
                raise Violation("selection", "%s: iterate %d of error %s "
                                "selected in %s" % (what, k, path[k], path))
            if not close(c, cs[k], f):
                raise Violation("selection", "%s: the model is not iterate %d"
                                % (what, k))
            if cv is not None and len(cv) and not same(out["error"], cv[k]):
                raise Violation("selection", "%s: error %s reported, the "
                                "selected iterate has %s" % (
                                    what, out["error"], cv[k]))
            ctx.probe("selection checked")
    elif cs and standard:
        if not close(c, cs[-1], f):
            raise Violation("last", "%s: the model returned is not the last "
                            "iterate" % what)
        if cv is not None and len(cv) and not same(
                out["error"], cv[-1]):
            raise Violation("last", "%s: error %s reported, the last iterate "
                            "has %s" % (what, out["error"], cv[-1]))
    lm = u["lm"]
    if u["loss"] == "density":
        density(u, f, c, cs, out, cv, standard, sel, what, ctx)
    ols = not lm["adapt"] and not lm["reg"] and u["loss"] == "square"
    if ols and asked and cv is not None and len(cv) and standard and \
            lm["type"] == "leave_out" and not lm["correction"] and \
            u["out"] == 1 and not u["vector"] and not u["tree_adapt"] and \
            out.get("flag") != -2 and np.prod(u["shape"]) <= 300:
        k = out.get("selected_model_number", len(cv) - 1)
        if not sel or cs:
            e = float(np.ravel(cv[k])[0])
            loo = leave_one_out(f, u)
            if all(v is not None for _, v in loo):
                if not any(v == e or abs(v - e) <= 1e-6 * v + 1e-9
                           for _, v in loo):
                    raise Violation("cv", "%s: leave-one-out error %.8e, "
                                    "refits of the parameters have %s" % (
                                        what, e, loo))
                ctx.probe("leave-one-out recomputed")
            else:
                ctx.probe("leave-one-out ill-conditioned")
    # ranks grow at the nodes reported as enriched, by one
    nodes = out.get("enriched_nodes_iterations")
    if u["fmt"] == "tree" and u["adaptation"] == "standard" and \
            len(its) > 1 and nodes is not None and not u["tree_adapt"]:
        for k in range(1, len(its)):
            old, new = np.array(its[k - 1].tensor.ranks), np.array(
                its[k].tensor.ranks)
            for nod in np.ravel(nodes[k - 1]).astype(int):
                old[nod - 1] += 1
            if np.any(new > old):
                raise Violation("enriched", "%s: ranks go from %s to %s, the "
                                "nodes enriched are %s" % (
                                    what, its[k - 1].tensor.ranks, new,
                                    nodes[k - 1]))
        ctx.probe("enrichments checked", len(its) - 1)
    # the parameter fitted last is a least-squares solution
    if ols and u["adaptation"] is None and u["algorithm"] == "standard" and \
            u["out"] == 1 and not u["vector"] and np.prod(u["shape"]) <= 300:
        g = optimality(f, u)
        if not g <= 1e-6:
            raise Violation("optimal", "%s: the model is not optimal in any "
                            "of its parameters (relative gradient %.3e)" % (
                                what, g))
        ctx.probe("optimality checked")
    # alternating minimisation never increases the training residual
    if ols and u["adaptation"] is None and u["algorithm"] == "standard" and \
            u["init"] == "initial_guess" and out.get("flag") != -2:
        t = u["guess"]
        want = u["rank"] if u["fmt"] == "canonical" else None
        if want is None or want == len(t.core.data):
            got = f.tensor.ranks if want is None else want
            had = t.ranks if want is None else want
            if np.all(np.asarray(got) == np.asarray(had)):
                x = tensap.FunctionalTensor(t, u["H"])
                c0 = learn.coefficients(x, u)
                r0 = np.linalg.norm(learn.residual(c0, u["H"], u["y"]))
                last = np.linalg.norm(learn.residual(
                    cs[0] if cs else c, u["H"], u["y"]))
                m = max(learn.magnitude(f, u["H"]),
                        learn.magnitude(x, u["H"]))
                if not last <= r0 * (1 + 1e-7) + 1e-7 * np.linalg.norm(
                        u["y"]) + 1e-9 * m:
                    raise Violation("increase", "%s: the training residual "
                                    "goes from %.6e for the initial guess to "
                                    "%.6e" % (what, r0, last))
                ctx.probe("initial guesses checked")
    if ols and u["adaptation"] is None and u["algorithm"] == "standard" and \
            len(cs) > 1:
        res = [np.linalg.norm(learn.residual(x, u["H"], u["y"]))
               for x in cs]
        for k in range(1, len(res)):
            m = max(learn.magnitude(its[k], u["H"]),
                    learn.magnitude(its[k - 1], u["H"]))
            if not res[k] <= res[k - 1] * (1 + 1e-7) + 1e-7 * np.linalg.norm(
                    u["y"]) + 1e-9 * m:
                raise Violation("increase", "%s: the training residual goes "
                                "from %.6e to %.6e in sweep %d" % (
                                    what, res[k - 1], res[k], k))
        ctx.probe("sweeps checked", len(res) - 1)


def close(c, d, f):
    """Same coefficients, up to rounding errors."""
    return c.shape == d.shape and np.max(np.abs(c - d)) <= 1e-10 * np.max(
        np.asarray(learn.dense(f.tensor, absolute=True), float))


def optimality(f, u):
    """Smallest relative gradient of the residual in one parameter."""
    y = np.ravel(u["y"])
    K = learn.khatri(u["H"], np.eye(int(np.prod(u["shape"]))).reshape(
        list(u["shape"]) + [-1]))
    res = np.ravel(learn.residual(
        learn.coefficients(f, u), u["H"], u["y"]))
    m = learn.magnitude(f, u["H"]) + np.linalg.norm(y)
    got = []
    for _, E in learn.environments(f, u["H"], u):
        U, sv, _ = np.linalg.svd(K @ E, full_matrices=False)
        U = U[:, sv > 1e-5 * sv[0]]
        got.append(float(np.linalg.norm(U.T @ res)) / (m + 1e-300))
    return min(got)


def leave_one_out(f, u):
    """Leave-one-out errors of f refitted in one of its parameters."""
    y = np.ravel(u["y"])
    K = learn.khatri(u["H"], np.eye(int(np.prod(u["shape"]))).reshape(
        list(u["shape"]) + [-1]))
    got = []
    for name, E in learn.environments(f, u["H"], u):
        A = K @ E
        U, sv, _ = np.linalg.svd(A, full_matrices=False)
        if A.shape[0] <= A.shape[1]:
            got.append((name, np.inf))
            continue
        if sv[0] == 0:
            continue
        doubtful = np.any(sv < 1e-6 * sv[0])
        h = 1 - np.sum(U ** 2, 1)
        res = y - U @ (U.T @ y)
        if doubtful or np.min(h) < 1e-6:
            got.append((name, None))
            continue
        got.append((name, float(np.sqrt(np.mean((res / h) ** 2) /
                                        np.mean(y ** 2)))))
    return got


def density(u, f, c, cs, out, cv, standard, sel, what, ctx):
    """The last parameter fitted minimises the empirical risk."""
    if u["lm"]["adapt"] or u["tree_adapt"] or not standard or \
            out.get("flag") == -2 or np.prod(u["shape"]) > 300:
        return
    K = learn.khatri(u["H"], np.eye(int(np.prod(u["shape"]))).reshape(
        list(u["shape"]) + [-1]))
    mean = np.mean(K, 0)
    n = len(K)
    grads, loos = [], []
    for _, E in learn.environments(f, u["H"], u):
        U, sv, _ = np.linalg.svd(E, full_matrices=False)
        if sv[0] == 0 or np.any((sv < 1e-5 * sv[0]) & (sv > 1e-13 * sv[0])):
            return
        U = U[:, sv > 1e-5 * sv[0]]
        w = U.T @ (np.ravel(c) - mean)
        grads.append(float(np.linalg.norm(w)) / (
            np.linalg.norm(mean) + 1e-300))
        A = K @ U
        a = np.mean(A, 0)
        B = (n * a - A) / (n - 1)           # without each of the samples
        loos.append(float(np.mean(np.sum(B ** 2, 1) - 2 * np.sum(A * B, 1))))
    if u["adaptation"] is None and not min(grads) <= 1e-6:
        raise Violation("optimal", "%s: the density is not optimal in any of "
                        "its parameters (relative gradient %.3e)" % (
                            what, min(grads)))
    ctx.probe("densities checked")
    if cv is not None and len(cv) and (not sel or cs):
        k = out.get("selected_model_number", len(cv) - 1)
        e = float(np.ravel(cv[k])[0])
        tol = 1e-7 * (np.mean(np.sum(K ** 2, 1)) + abs(e))
        if not any(abs(v - e) <= tol for v in loos):
            raise Violation("cv", "%s: leave-one-out risk %.8e, refits of the "
                            "parameters have %s" % (what, e, loos))
        ctx.probe("leave-one-out risks recomputed")


def near(got, want, f, u, what):
    got = float(np.ravel(got)[0])
    if u["loss"] == "density":
        m = learn.magnitude(f, u["Ht"])
        c = learn.coefficients(f, u)
        if not abs(got - want) <= 1e-9 * (m + np.sum(c ** 2) + 1e-6):
            raise Violation("error", "%s is reported as %.8e, it is %.8e" % (
                what, got, want))
        return
    m = learn.magnitude(f, u["Ht"]) / (np.sqrt(np.mean(
        np.asarray(u["yt"]) ** 2)) + 1e-300)
    if not abs(got - want) <= 1e-9 * max(want, m, 1e-6):
        raise Violation("error", "%s is reported as %.8e, it is %.8e" % (
            what, got, want))
