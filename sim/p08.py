"""P08: black-box tensor approximation is exact on low-rank data."""
import copy
import random

import numpy as np

from . import dense, hist
from .core import RANDOM, Violation, snap, diff, tensap
from .opbase import check_tbt

PROP = "P08"
CASES = {"quick": 4000, "thorough": 150000}
LINE_BUDGET = 30_000_000
DRAW_BUDGET = 60_000
RULE = ("a case is a black box (entries of a low-rank tensor, or a low-rank "
        "polynomial function) of order 2-5 and a seeded history of 1-4 "
        "approximations (principal components, Tucker, tensor train, random "
        "trees with inactive leaves) with one solver object whose settings "
        "(precision or rank, scalar or per node, adaptive sampling, sampling "
        "factor, subsampling) change in between; some runs fail in the black "
        "box, in a kernel, or are cut short and are retried; non-trivial when "
        "an approximation completed; distinct by (operations, settings, "
        "ranks, evaluations, fired faults)")
MEASURE = "distinct sequences of (operation, settings, ranks, count, fault)"
REAL = ["tensap TensorPrincipalComponentAnalysis, "
        "FunctionalTensorPrincipalComponentAnalysis, random_multi_indices, "
        "magic_indices, TreeBasedTensor, FunctionalTensor, bases"]
STUBS = ["black box (pure logged function that can fail at any call)",
         "numpy.random (seeded, extreme draws)",
         "numpy.linalg kernels (real, made to fail on command)"]
OPS = ["hopca", "tucker", "tt", "tree", "tree"]


class CallbackError(Exception):
    pass


def gen(seed, tier):
    r = random.Random(seed)
    pf = r.choice([0.0, 0.0, 0.4, 0.8])
    ops = []
    for _ in range(r.randint(1, 4)):
        f = None
        if r.random() < pf:
            f = {"kind": r.choice(["callback", "callback", "callback",
                                   "interrupt", "alloc", "kernel"]),
                 "at": round(r.random(), 4)}
        ops.append([r.choice(OPS), r.randrange(1 << 30), f])
    return {"seed": seed, "ops": ops,
            "cfg": {"d": r.choice([2, 3, 3, 4, 4, 5]),
                    "fun": r.random() < 0.35,
                    "adv": r.choice([0.0, 0.0, 0.2, 1.0])}}


simplify = hist.simplify


class Black:
    """Logged black box on rows; can fail at its k-th call."""

    def __init__(self, value):
        self.value = value
        self.log = []
        self.bad = None
        self.calls = 0
        self.fail_at = None

    def __deepcopy__(self, memo):
        return self

    def __call__(self, x):
        k = self.calls
        self.calls += 1
        if self.fail_at is not None and k >= self.fail_at:
            self.fail_at = None
            raise CallbackError("black box failed")
        x = np.asarray(x)
        self.log.append(np.array(x))
        return self.value(x)


def clear(b):
    b.log, b.calls, b.fail_at, b.bad = [], 0, None, None


# ------------------------------------------------------------------ models
def low_rank(r, d, shape, decay=False):
    """A dense tensor with moderate ranks, entries of order one."""
    d2i, adj = dense.make_tree(r, d)
    if decay:
        a, m = r.choice([0.5, 1, 2, 3]), 0
        for k in range(max(shape) + 1):
            t = dense.g(r, [shape[0]])
            for s in shape[1:]:
                t = np.multiply.outer(t, dense.g(r, [s]))
            m = m + t * 10.0 ** (-a * k)
        return m / np.max(np.abs(m))
    kind = r.choice(["gauss", "gauss", "gauss", "cp", "zero"])
    if kind == "cp":
        k = r.choice([1, 1, 2, 3])
        m = 0
        for _ in range(k):
            t = dense.g(r, [shape[0]])
            for s in shape[1:]:
                t = np.multiply.outer(t, dense.g(r, [s]))
            m = m + t
    elif kind == "zero" and r.random() < 0.2:
        m = np.zeros(shape)
    else:
        cores = dense.make_tbt(r, d2i, adj, shape, maxrank=2)
        m = dense.dense_tbt(dense.build_tbt(cores, d2i, adj))
    n = np.max(np.abs(m))
    return m / n if n > 0 else m


def unfold(m, dims):
    rest = [k for k in range(m.ndim) if k not in dims]
    p = np.transpose(m, list(dims) + rest)
    return p.reshape(int(np.prod([m.shape[k] for k in dims])), -1)


def nrank(a, tol):
    if min(a.shape) == 0:
        return 0
    s = np.linalg.svd(a, compute_uv=False)
    return int(np.sum(s > tol * s[0])) if s[0] > 0 else 0


class World:
    pass


def world(seed, cfg):
    r = random.Random(seed)
    w = World()
    d = w.d = cfg["d"]
    w.fun = cfg["fun"]
    hi = 5 if d <= 3 else 4
    w.shape = [r.randint(2, hi) for _ in range(d)]
    w.scale = r.choice([1.0, 1.0, 1e-4, 1e3])
    w.decay = random.Random(seed + 1).random() < 0.25
    w.m = low_rank(r, d, w.shape, w.decay) * w.scale
    w.given = False
    if not w.fun:
        m = w.m

        def value(x):
            return m[tuple(np.asarray(x, dtype=int).T)]
        w.black = Black(value)
        w.shape_arg = w.shape if r.random() < 0.6 else np.array(w.shape)
        return w
    # functions: w.m are coefficients on polynomial bases
    w.coef = w.m
    bases = []
    for k in range(d):
        fam = r.choice(["legendre", "hermite", "legendre"])
        poly = tensap.LegendrePolynomials() if fam == "legendre" else \
            tensap.HermitePolynomials()
        bases.append(tensap.PolynomialFunctionalBasis(
            poly, range(w.shape[k])))
    w.bases = tensap.FunctionalBases(bases)
    c = w.coef

    def value(x):
        x = np.asarray(x, float)
        out = c
        ev = [w.bases.bases[k].eval(x[:, k]) for k in range(d)]
        out = np.tensordot(ev[0], c, axes=([1], [0]))      # n x ...
        for k in range(1, d):
            out = np.einsum("nj...,nj->n...", out, ev[k])
        return out
    w.black = Black(value)
    w.given = r.random() < 0.6
    if w.given:
        pts = [np.sort(np.array([r.uniform(-1, 1) for _ in range(
            w.shape[k] + r.randint(0, 4))])) for k in range(d)]
        how = r.choice(["list", "grid", "list"])
        if how == "list":
            w.grid = [p.reshape(-1, 1) if r.random() < 0.5 else p
                      for p in pts]
        else:
            w.grid = tensap.FullTensorGrid([p.reshape(-1, 1) for p in pts])
        w.cand = pts
    else:
        w.grid = None
    return w


# ---------------------------------------------------------------- settings
def settings(r, w, kind, tree, active):
    """Set of solver attributes and limits per node (or per dimension)."""
    n = {"hopca": w.d, "tucker": w.d, "tt": w.d - 1,
         "tree": tree.nb_nodes if tree is not None else 0}[kind]
    s = {"display": r.random() < 0.1,
         "pca_adaptive_sampling": r.random() < (0.5 if w.decay else 0.35),
         "pca_sampling_factor": r.choice([1, 1, 2, 3, 1.5, 10])}
    if not w.fun:
        s["subsampling"] = r.choice(["eim", "eim", "eim", "random"])
    form = r.choice(["scalar", "scalar", "one", "array", "list"])
    mode = r.choice(["tol", "tol", "rank"])

    def shaped(vals):
        if form == "scalar" or n == 1 and form != "one":
            return vals[0]
        if form == "one":
            return r.choice([[vals[0]], np.array([vals[0]])])
        return list(vals) if form == "list" else np.array(vals)
    if mode == "tol":
        vals = [r.choice([1e-8, 1e-8, 1e-10, 1e-6]) for _ in range(max(n, 1))]
        if kind in ("tucker", "tt", "tree") and form not in (
                "scalar", "one"):
            vals = [1e-9 for _ in vals]
        if w.decay:
            vals = [r.choice([0.3, 1e-2, 1e-4, 1e-6, 1e-9, 1e-11])
                    for _ in vals]
        s["tol"], s["max_rank"] = shaped(vals), np.inf
        w.limits = None
    else:
        vals = [r.choice([1, 2, 2, 3, 4, 6]) for _ in range(max(n, 1))]
        s["tol"], s["max_rank"] = np.inf, shaped(vals)
        if r.random() < 0.3 and form in ("array", "list"):
            s["tol"] = shaped([np.inf] * n)
        if np.ndim(s["max_rank"]) == 0 or len(s["max_rank"]) == 1:
            vals = [vals[0]] * max(n, 1)
        w.limits = vals
    w.mode = mode
    return s


def check_grid(w, log, ctx):
    """Every evaluation at a valid grid point."""
    rows = np.concatenate([x.reshape(len(x), -1) for x in log]) if log else \
        np.zeros((0, w.d))
    if rows.shape[1] != w.d:
        raise Violation("points", "the black box got rows of %d entries, "
                        "order is %d" % (rows.shape[1], w.d))
    if not w.fun:
        if not (np.all(rows == np.floor(rows)) and np.all(rows >= 0)
                and np.all(rows < np.array(w.shape))):
            raise Violation("points", "evaluated outside the index set: %s" %
                            rows[np.any((rows < 0) | (rows >= w.shape),
                                        axis=1)][:2].tolist())
        return rows.astype(int)
    for k in range(w.d):
        u = np.unique(rows[:, k])
        if w.given and not np.all(np.isin(u, w.cand[k])):
            raise Violation("points", "evaluated outside the given grid")
        if not np.all(np.isfinite(u)):
            raise Violation("points", "evaluated at a non-finite point")
        if len(u) > w.shape[k]:
            raise Violation("points", "%d points in dimension %d, the grid "
                            "has %d" % (len(u), k, w.shape[k]))
        lo, hi = np.ravel(w.bases.bases[k].domain())[:2]
        if np.any(u < lo) or np.any(u > hi):
            raise Violation("points", "evaluated outside the domain")
    return rows


def to_rows(w, samples):
    """Recorded samples as points the black box was asked for."""
    samples = np.asarray(samples)
    if not w.fun:
        return samples
    if w.pts is None:
        return None
    i = samples.astype(int)
    return np.column_stack([w.pts[k][i[:, k]] for k in range(w.d)])


def same_rows(a, b):
    """As multisets."""
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    return np.array_equal(a[np.lexsort(a.T)], b[np.lexsort(b.T)])


def values_at(w, idx):
    """Entries of the underlying tensor at rows of indices."""
    idx = np.asarray(idx, dtype=int)
    if np.any(idx < 0) or np.any(idx >= np.array(w.shape)):
        raise Violation("samples", "recorded samples are not grid indices")
    if not w.fun:
        return w.m[tuple(idx.T)]
    return w.on_grid[tuple(idx.T)]


def sampled_rank(w, samples, dims):
    """Numerical rank of the sampled part of the unfolding, and its size."""
    rest = [k for k in range(w.d) if k not in dims]
    a = [tuple(x) for x in samples[:, dims].tolist()]
    b = [tuple(x) for x in samples[:, rest].tolist()]
    ra, rb = sorted(set(a)), sorted(set(b))
    ia, ib = {x: i for i, x in enumerate(ra)}, {x: i for i, x in enumerate(rb)}
    mat = np.zeros((len(ra), len(rb)))
    v = values_at(w, samples)
    for x, y, z in zip(a, b, v):
        mat[ia[x], ib[y]] = z
    return nrank(mat, 1e-3)


# ----------------------------------------------------------------- running
def run(case, ctx):
    with hist.quiet():
        _run(case, ctx)


def _run(case, ctx):
    cfg = case["cfg"]
    w = world(case["seed"], cfg)
    cls = tensap.FunctionalTensorPrincipalComponentAnalysis if w.fun else \
        tensap.TensorPrincipalComponentAnalysis
    solver = cls()
    if w.fun:
        solver.bases, solver.grid = w.bases, w.grid
    faulty = any(o[2] for o in case["ops"])
    ctx.config = "%s/%s/%s" % ("function" if w.fun else "tensor",
                               "extreme draws" if cfg["adv"] else
                               "real draws",
                               "faults" if faulty else "fault-free")
    for op in case["ops"]:
        step(op, w, solver, cls, cfg, ctx)


def step(op, w, solver, cls, cfg, ctx):
    name, seed, fault = op
    r = random.Random(seed)
    tree = active = None
    args = {}
    if name == "tree":
        d2i, adj = dense.make_tree(r, w.d)
        tree = tensap.DimensionTree(d2i, adj)
        active = [True] * tree.nb_nodes
        if r.random() < 0.5:
            for k in d2i:
                active[int(k) - 1] = r.random() < 0.6
            args["is_active_node"] = active if r.random() < 0.5 else \
                np.array(active)
        args["tree"] = tree
    s = settings(r, w, name, tree, active)
    for k, v in s.items():
        setattr(solver, k, v)
    rs = r.randrange(1 << 30)

    def call(sol):
        RANDOM.seed(rs)
        RANDOM.adv = random.Random(rs) if cfg["adv"] else None
        RANDOM.p = cfg["adv"]
        meth = {"hopca": "hopca", "tucker": "tucker_approximation",
                "tt": "tt_approximation",
                "tree": "tree_based_approximation"}[name]
        try:
            if w.fun:
                return getattr(sol, meth)(w.black, **args)
            return getattr(sol, meth)(w.black, w.shape_arg, **args)
        finally:
            RANDOM.adv = None
            RANDOM.p = 0.0

    # what the grid of interpolation points is (functions)
    w.pts = None
    if w.fun:
        if w.given:
            w.pts = [w.bases.bases[k].interpolation_points(
                np.reshape(w.cand[k], (-1, 1))) for k in range(w.d)]
        else:
            RANDOM.seed(rs)
            RANDOM.adv = random.Random(rs) if cfg["adv"] else None
            RANDOM.p = cfg["adv"]
            try:
                w.pts = tensap.FunctionalBases(w.bases).interpolation_points()
            except np.linalg.LinAlgError:
                pass
            RANDOM.adv, RANDOM.p = None, 0.0
        w.cond = np.inf
        if w.pts is not None:
            w.pts = [np.ravel(p) for p in w.pts]
            ev = [w.bases.bases[k].eval(w.pts[k]) for k in range(w.d)]
            w.cond = float(np.prod([np.linalg.cond(e) for e in ev]))
            g = w.coef
            for k in range(w.d):
                g = np.moveaxis(np.tensordot(ev[k], g, axes=([1], [k])), 0, k)
            w.on_grid = g
    inputs = snap([solver, args, w.shape] + (
        [w.bases, w.grid] if w.fun else [w.shape_arg]))

    def unchanged():
        d = diff(inputs, snap([solver, args, w.shape] + (
            [w.bases, w.grid] if w.fun else [w.shape_arg])))
        if d:
            raise Violation("input", "%s changed an input at %s" % (name, d))

    clear(w.black)
    fired = None
    if fault is not None:
        if fault["kind"] == "callback":
            _, _, e0 = ctx.measure(lambda: call(copy.deepcopy(solver)))
            n = w.black.calls
            clear(w.black)
            ctx.plan("callback")
            if n:
                w.black.fail_at = min(int(fault["at"] * n), n - 1)
            try:
                call(solver)
                if w.black.fail_at is None and n:
                    raise Violation("swallowed", "the exception of the black "
                                    "box did not reach the caller")
            except CallbackError:
                ctx.fault("callback")
                fired = ("callback",)
            except np.linalg.LinAlgError:
                pass
            clear(w.black)
        else:
            nl, kern, _ = ctx.measure(lambda: call(copy.deepcopy(solver)))
            clear(w.black)
            _, err, fired = ctx.faulty(fault, lambda: call(solver), nl, kern)
            clear(w.black)
        unchanged()
        if fired:
            ctx.mark(name, "fault", fault["kind"])
    try:
        res, out = call(solver)
    except np.linalg.LinAlgError as e:
        if singular_ok(s, w, cfg):
            ctx.probe("singular sample: gave up")
            unchanged()
            return
        raise Violation("raised", "%s: %s" % (name, e))
    except (AssertionError, IndexError, ValueError, TypeError,
            AttributeError) as e:
        raise Violation("raised", "%s raised %s: %s" % (
            name, type(e).__name__, e))
    unchanged()
    log = w.black.log
    rows = check_grid(w, log, ctx)
    clear(w.black)
    if name == "hopca":
        sig = check_hopca(w, res, out, rows, s, ctx)
    else:
        if name == "tt":
            tree = None
        sig = check_tensor(w, name, res, out, rows, s, tree, active, ctx)
    # a fresh solver gives the same
    fresh = cls()
    if w.fun:
        fresh.bases, fresh.grid = copy.deepcopy(w.bases), \
            copy.deepcopy(w.grid)
    for k, v in s.items():
        setattr(fresh, k, copy.deepcopy(v))
    for k in ("subsampling",):
        if hasattr(solver, k) and k not in s:
            setattr(fresh, k, getattr(solver, k))
    res2, out2 = call(fresh)
    clear(w.black)
    d = diff(snap([res, out]), snap([res2, out2]))
    if d:
        raise Violation("history", "%s with a used solver differs from a "
                        "fresh solver at %s" % (name, d))
    ctx.op(name)
    ctx.log(name, snap([res, out]))
    ctx.mark(name, sig, bool(fired), w.mode, s["pca_adaptive_sampling"],
             float(s["pca_sampling_factor"]))


def singular_ok(s, w, cfg):
    """Random subsampling and zero data can lead to a singular system."""
    if s.get("subsampling") == "random":
        return True
    if not np.any(w.m):
        return True
    return w.fun and w.pts is None


def recorded(w, parts, rows, count):
    if int(count) != len(rows):
        raise Violation("count", "%d evaluations reported, %d made" % (
            count, len(rows)))
    for p in parts:
        if p.ndim != 2 or p.shape[1] != w.d:
            raise Violation("samples", "recorded samples have shape %s" %
                            (p.shape,))
    allp = np.concatenate(parts) if parts else np.zeros((0, w.d))
    pts = to_rows(w, allp)
    if pts is None:
        return
    if not same_rows(np.asarray(pts, float), np.asarray(rows, float)):
        raise Violation("samples", "the recorded samples are not the points "
                        "at which the black box was evaluated")


def basis_cond(out):
    c = 1.0
    for b in out.get("alpha_basis", []):
        if b is None:
            continue
        b = np.atleast_2d(b)
        if b.size:
            c *= max(1.0, float(np.linalg.cond(b)))
    return c


def early(w, s, p, dims, true):
    """Adaptive sampling may not stop while every fibre brought a rank."""
    if not s["pca_adaptive_sampling"] or w.limits is not None:
        return
    grid = len(np.unique(p[:, dims], axis=0))
    n = len(p) // grid
    if n >= true or n >= grid * s["pca_sampling_factor"]:
        return
    if sampled_rank(w, p, dims) == n:
        raise Violation("adaptive", "sampling of dimensions %s stopped after "
                        "%d independent fibres, the rank is %d" % (
                            dims, n, true))


def residual(w, s, b, p, k, tol, strict, ctx):
    """The components of one dimension contain the sampled fibres up to tol,
    and adaptive sampling goes on while every fibre brings a component."""
    if w.fun or w.limits is not None or not tol < 1:
        return
    size = w.shape[k]
    if len(p) % size:
        raise Violation("samples", "dimension %d: %d samples, %d indices" % (
            k, len(p), size))
    v = values_at(w, p)
    rest = np.delete(p, k, axis=1)
    fibres = {}
    for x, z, y in zip(rest.tolist(), p[:, k].tolist(), v):
        fibres.setdefault(tuple(x), {})[int(z)] = y
    if any(len(f) != size for f in fibres.values()):
        raise Violation("samples", "dimension %d: incomplete fibres" % k)
    n = len(p) // size
    # repeated fibres weigh as often as they were drawn
    count = {}
    for x in rest.tolist():
        count[tuple(x)] = count.get(tuple(x), 0) + 1
    a = np.column_stack([np.array([f[i] for i in range(size)]) * np.sqrt(
        count[x] / size) for x, f in fibres.items()])
    if a.ndim != 2 or not np.any(a):
        return
    q = np.linalg.qr(b)[0]
    e = np.linalg.norm(a - q @ (q.T @ a)) / np.linalg.norm(a)
    slack = 1e-13
    if slack < 1e-2 and e > tol * (1 + 1e-6) + slack:
        raise Violation("tolerance", "the components of dimension %d miss the "
                        "sampled fibres by %.2e, the tolerance is %.1e" % (
                            k, e, tol))
    ctx.probe("components within the tolerance")
    if strict and s["pca_adaptive_sampling"] and w.decay:
        f = s["pca_sampling_factor"]
        if n < int(np.ceil(f * size)):
            sv = np.linalg.svd(a, compute_uv=False)
            tail = np.append(np.sqrt(np.cumsum(sv[::-1] ** 2))[::-1][1:], 0)
            need = int(np.nonzero(
                tail < tol * (1 + 1e-6) * np.linalg.norm(a) + 1e-14)[0][0]) + 1
            if need >= np.ceil(n / f) and sv[need - 1] > 1e-12 * w.scale and \
                    sv[need - 1] > 1e-12 and tail[need - 1] < 0.99 * tol * \
                    np.linalg.norm(a):
                raise Violation("adaptive", "sampling of dimension %d stopped "
                                "after %d fibres that need %d components" % (
                                    k, n, need))


def check_hopca(w, res, out, rows, s, ctx):
    if len(res) != w.d or len(out) != w.d:
        raise Violation("result", "hopca returned %d components" % len(res))
    parts = [np.asarray(o["samples"]) for o in out]
    recorded(w, parts, rows, sum(o["number_of_evaluations"] for o in out))
    sig = []
    for k in range(w.d):
        if parts[k].shape[0] != out[k]["number_of_evaluations"]:
            raise Violation("count", "dimension %d: %d reported, %d recorded"
                            % (k, out[k]["number_of_evaluations"],
                               parts[k].shape[0]))
        b = res[k].basis if w.fun else res[k]
        b = np.asarray(b)
        if b.ndim != 2 or b.shape[0] != w.shape[k]:
            raise Violation("result", "component %d has shape %s" % (
                k, b.shape))
        if w.limits is not None and b.shape[1] > w.limits[k]:
            raise Violation("rank", "%d components, limit %d" % (
                b.shape[1], w.limits[k]))
        if w.fun and w.pts is None:
            continue
        if not w.fun:
            e = np.max(np.abs(b.T @ b - np.eye(b.shape[1])))
            if e > 1e-10:
                raise Violation("orthonormal", "components %d are not "
                                "orthonormal (%.1e)" % (k, e))
        residual(w, s, b, parts[k], k, np.ravel(s["tol"])[
            k if np.size(s["tol"]) > 1 else 0], True, ctx)
        if w.decay:
            sig.append(b.shape[1])
            continue
        u = unfold(w.m, [k])
        true = nrank(u, 1e-9)
        got = sampled_rank(w, parts[k], [k])
        early(w, s, parts[k], [k], true)
        if got >= true > 0 and (w.limits is None or w.limits[k] >= true) \
                and not (s["pca_adaptive_sampling"] and b.shape[1] < true):
            q = np.linalg.qr(b)[0]
            e = np.max(np.abs(u - q @ (q.T @ u))) / w.scale
            tol = 1e-6 * (max(1.0, w.cond) if w.fun else 1.0)
            if tol < 1e-2 and e > max(tol, 1e-5):
                raise Violation("exact", "components of dimension %d miss "
                                "the tensor by %.2e" % (k, e))
            ctx.probe("components exact")
        sig.append(b.shape[1])
    return tuple(sig), len(rows)


def check_tensor(w, name, res, out, rows, s, tree, active, ctx):
    t = res.tensor if w.fun else res
    if not isinstance(t, tensap.TreeBasedTensor):
        raise Violation("result", "not a tree based tensor")
    check_tbt(t, name)
    adj, d2i = t.tree.adjacency_matrix, [int(k) for k in t.tree.dim2ind]
    n = len(adj)
    par = dense.parents_of(adj)
    root = par.index(0) + 1
    if tree is not None and not (
            np.array_equal(adj, tree.adjacency_matrix)
            and d2i == [int(k) for k in tree.dim2ind]):
        raise Violation("result", "the tensor is not on the tree asked for")
    if [int(k) for k in t.shape] != w.shape:
        raise Violation("shape", "shape %s for %s" % (
            np.array(t.shape).tolist(), w.shape))

    def dims(k):
        ch = dense.children_of(adj, k)
        return [d2i.index(k)] if not ch else sorted(
            x for c in ch for x in dims(c))
    nodes = {}
    for k in range(1, n + 1):
        if k != root and np.asarray(t.tensors[k - 1].data).size:
            nodes[k] = dims(k)
    if active is not None:
        for k in range(1, n + 1):
            if k in d2i and (k in nodes) != bool(active[k - 1]):
                raise Violation("result", "node %d active: %s" % (
                    k, k in nodes))
    if name == "tucker" and (len(nodes) != w.d or n != w.d + 1):
        raise Violation("result", "not a Tucker tree")
    if name == "tt":
        want = sorted([list(range(i + 1)) for i in range(w.d - 1)])
        if sorted(nodes.values()) != want:
            raise Violation("result", "not a tensor train: %s" %
                            sorted(nodes.values()))
    # rank limits
    if w.limits is not None:
        for k, dm in nodes.items():
            lim = w.limits[dm[0] if name == "tucker" else len(dm) - 1
                           if name == "tt" else k - 1]
            if int(t.ranks[k - 1]) > lim:
                raise Violation("rank", "rank %d of dimensions %s, limit %d" %
                                (t.ranks[k - 1], dm, lim))
    parts = []
    for k in range(n):
        p = out["samples"][k]
        if p is not None:
            parts.append(np.asarray(p))
    recorded(w, parts, rows, out["number_of_evaluations"])
    # exactness
    sig = (tuple(int(x) for x in t.ranks), len(rows))
    if w.fun and w.pts is None:
        return sig
    for k, dm in nodes.items():
        if len(dm) == 1 and dm[0] == d2i.index(k):
            tol = np.ravel(s["tol"])
            tol = tol[0] if tol.size == 1 else tol[
                dm[0] if name == "tucker" else 0 if name == "tt" else k - 1]
            residual(w, s, np.asarray(t.tensors[k - 1].data),
                     np.asarray(out["samples"][k - 1]), dm[0], tol, False, ctx)
    if w.decay:
        return sig
    for k, dm in nodes.items():
        true = nrank(unfold(w.m, dm), 1e-9)
        if true == 0:
            return sig
        if w.limits is not None and int(t.ranks[k - 1]) < true:
            return sig
        p = np.asarray(out["samples"][k - 1])
        early(w, s, p, dm, true)
        if sampled_rank(w, p, dm) < true:
            return sig
        if s["pca_adaptive_sampling"] and int(t.ranks[k - 1]) < true:
            return sig
    c = basis_cond(out) * (w.cond if w.fun else 1.0)
    tol = 1e-9 * c * 100
    if tol > 1e-2:
        ctx.probe("ill-conditioned sample")
        return sig
    tol = max(tol, 1e-6)
    got = dense.dense_tbt(t)
    e = float(np.max(np.abs(got - w.m))) / w.scale
    if not e <= tol:
        raise Violation("exact", "%s differs from the tensor by %.2e "
                        "(allowed %.1e) though every rank was sampled" % (
                            name, e, tol))
    if w.fun:
        r = random.Random(len(rows))
        x = np.array([[r.uniform(-1, 1) for _ in range(w.d)]
                      for _ in range(5)])
        y = np.ravel(res(x))
        e = float(np.max(np.abs(y - w.black.value(x)))) / w.scale
        if not e <= tol * 100:
            raise Violation("exact", "%s: the function differs by %.2e" % (
                name, e))
    ctx.probe("exact approximation checked")
    return sig
