"""Truncators, shared between tensors and reused between faults."""
import numpy as np

from .core import Violation, tensap
from .dense import (dense, g, make_tree, make_tbt, build_tbt, parents_of,
                    children_of)
from .opbase import Entry, Op, check_tbt

TR = tensap.Truncator
TYPES = ["hard", "soft"]


def settings(t):
    mr = np.atleast_1d(np.asarray(t.max_rank, dtype=float)).reshape(-1)
    mr = np.where(np.isinf(mr), -1.0, mr)
    th = t.thresholding_parameter
    return np.array([float(t.tolerance), TYPES.index(t.thresholding_type),
                     0.0 if th is None else float(th), float(t._hsvd_type),
                     float(np.ndim(t.max_rank))] + mr.tolist())


def value(x):
    return settings(x) if isinstance(x, TR) else dense(x)


def _mat(m, dims):
    rest = [k for k in range(m.ndim) if k not in dims]
    return np.transpose(m, list(dims) + rest).reshape(
        int(np.prod([m.shape[k] for k in dims])), -1)


def _sv(a):
    return np.linalg.svd(a, compute_uv=False)


def _tail(s, k):
    return float(np.sqrt(np.sum(s[k:] ** 2)))


def _limit(name, k, lim):
    if lim >= 0 and k > lim:
        raise Violation("rank:" + name, "rank %d over the limit %d" % (k, lim))


def _meets(name, err, tol, norm, limited, slack):
    if not limited and err > tol * norm * (1 + 1e-6) + slack:
        raise Violation("tolerance:" + name, "relative error %.3e, tolerance "
                        "%.1e, no rank limit in the way" % (
                            err / max(norm, 1e-300), tol))


def _node_dims(tree):
    adj = np.asarray(tree.adjacency_matrix)
    d2i = [int(k) for k in tree.dim2ind]

    def dims(k):
        ch = children_of(adj, k)
        return [d2i.index(k)] if not ch else [x for j in ch for x in dims(j)]
    par = parents_of(adj)
    return {k + 1: dims(k + 1) for k in range(len(adj))}, \
        par.index(0) + 1


def _check_tree(name, res, m, tol, lims, active, slack, exact):
    """Tolerance, limits and quasi-optimality of a tree-based truncation."""
    check_tbt(res, name)
    dims, root = _node_dims(res.tree)
    if [bool(a) for a in res.is_active_node] != active:
        raise Violation("value:" + name, "active nodes changed")
    got = dense(res)
    if got.shape != m.shape:
        raise Violation("shape:" + name, "%s, expected %s" % (
            got.shape, m.shape))
    err, norm = np.linalg.norm(got - m), np.linalg.norm(m)
    nodes = [k for k in dims if k != root and active[k - 1]]
    local = tol / np.sqrt(max(len(nodes), 1))
    bound, limited = 0.0, False
    for k in nodes:
        s = _sv(_mat(m, dims[k]))
        rk = int(res.ranks[k - 1])
        _limit(name, rk, lims[k - 1])
        bound += _tail(s, rk) ** 2
        if rk == lims[k - 1]:
            limited = True
        need = next(i for i in range(len(s) + 1) if _tail(s, i) <
                    local * norm * (1 - 1e-6) or i == len(s))
        if exact and rk > max(need, 1) and tol > 1e-6 and \
                _tail(s, max(need, 1)) < local * norm * (1 - 1e-3):
            raise Violation("overrank:" + name, "node %d: rank %d, %d would "
                            "meet the tolerance" % (k, rk, need))
    _meets(name, err, tol, norm, limited, slack)
    if err > np.sqrt(bound) * (1 + 1e-6) + slack:
        raise Violation("optimality:" + name, "error %.3e, quasi-optimality "
                        "bound %.3e for these ranks" % (err, np.sqrt(bound)))


def _rel(s, k, p):
    """Relative p-norm of the singular values after the k-th."""
    if p == np.inf:
        return (s[k] if k < len(s) else 0.0) / max(s[0], 1e-300)
    return (np.sum(s[k:] ** p) / max(np.sum(s ** p), 1e-300)) ** (1.0 / p)


def _check_svd(name, res, m, tol, lim, kind, par, slack, p=2, exact=True):
    if not isinstance(res, tensap.CanonicalTensor):
        raise Violation("type:" + name, type(res).__name__)
    if [int(x) for x in res.shape] != list(m.shape):
        raise Violation("shape:" + name, "%s, expected %s" % (
            res.shape, m.shape))
    k = int(res.representation_rank())
    got = dense(res)
    s = _sv(m)
    norm = np.linalg.norm(m)
    _limit(name, k, lim)
    err = np.linalg.norm(got - m)
    if par:
        cut = next((i for i in range(len(s)) if s[i] < par * (1 - 1e-9)),
                   len(s))
        cut2 = next((i for i in range(len(s)) if s[i] < par * (1 + 1e-9)),
                    len(s))
        if k > cut:
            raise Violation("threshold:" + name, "%d terms, %d over the "
                            "threshold" % (k, cut))
        shift = par if kind == "soft" else 0.0
        best = np.sqrt(_tail(s, k) ** 2 + k * shift ** 2)
        if abs(err - best) > slack + 1e-7 * norm:
            raise Violation("optimality:" + name, "thresholded error %.3e, "
                            "expected %.3e" % (err, best))
        need = next(i for i in range(len(s) + 1) if i == len(s) or _rel(
            s, i, p) < tol * (1 + 1e-6))
        if k < cut2 and k != lim and k < need:
            raise Violation("threshold:" + name, "%d terms, %d are over the "
                            "threshold" % (k, cut2))
        return
    e = _rel(s, k, p)
    if k != lim and e > tol * (1 + 1e-6) + 1e-12:
        raise Violation("tolerance:" + name, "relative error %.3e, tolerance "
                        "%.1e" % (e, tol))
    if exact and k > 1 and norm > 0:
        t1 = s[k - 1] / s[0] if p == np.inf else \
            (np.sum(s[k - 1:] ** p) / np.sum(s ** p)) ** (1.0 / p)
        if t1 < tol * (1 - 1e-3):
            raise Violation("overrank:" + name, "rank %d, %d meets the "
                            "tolerance" % (k, k - 1))
    if err > _tail(s, k) * (1 + 1e-6) + slack:
        raise Violation("optimality:" + name, "error %.3e, the best rank-%d "
                        "error is %.3e" % (err, k, _tail(s, k)))


def _pick(r, pool, cond):
    c = [e for e in pool if cond(e)]
    return c[r.randrange(len(c))] if c else None


def _lims(tr, n, root=None):
    """Limits of a model per entry (-1: none)."""
    mr = tr[5:]
    if tr[4] == 0:
        out = [mr[0]] * n
        if root is not None:
            out[root - 1] = 1
        return out
    return list(mr) if len(mr) == n else None


def make(name, r, pool):
    if name == "new":
        tol = r.choice([0.0, 1e-13, 1e-8, 1e-4, 1e-2, 0.1, 0.3, 0.6])
        lim = r.choice([np.inf, np.inf, 1, 2, 3])
        if r.random() < 0.35:
            lim = [r.choice([1, 2, 3, 9]) for _ in range(r.choice(
                [3, 4, 5, 7]))]
            if r.random() < 0.7:
                lim = np.array(lim)
        args = [tol, lim]
        model = [tol, 0, 0.0, 2, float(np.ndim(lim))] + [
            -1.0 if np.isinf(x) else float(x) for x in np.atleast_1d(lim)]
        if r.random() < 0.25:
            kind, par = r.choice(TYPES), r.choice([0.0, 1e-6, 0.05, 0.3])
            args += [kind, par]
            model[1], model[2] = TYPES.index(kind), par
        if r.random() < 0.3:
            def f(*a):
                t = TR(*a)
                t._hsvd_type = 1
                return t
            model[3] = 1
        else:
            f = TR
        return Op(name, f, args, None, check=lambda res: None if
                  np.array_equal(settings(res), model) else _bad_set(
                      name, settings(res), model), keep=True)
    tr = _pick(r, pool, lambda e: isinstance(e.obj, TR))
    if tr is None:
        return None
    s = tr.model
    tol, kind, par = float(s[0]), TYPES[int(s[1])], float(s[2])
    if name == "repr":
        return Op(name, lambda x: repr(x), [tr.obj], None)
    if name in ("trunc_svd", "svd", "svd_tensor", "truncate2", "trunc_p"):
        if s[4]:
            return None
        e = _pick(r, pool, lambda e: not isinstance(e.obj, TR) and
                  e.model.ndim == 2 and
                  isinstance(e.obj, (np.ndarray, tensap.FullTensor,
                                     tensap.CanonicalTensor)))
        if e is None or not np.any(e.model):
            return None
        m = e.model
        lim = s[5]
        if par and _sv(m)[0] < par * (1 + 1e-6):
            return None                    # nothing left: not specified
        slack = 1e-9 * e.mag * m.size
        can = isinstance(e.obj, tensap.CanonicalTensor)
        if name == "trunc_p" or name == "trunc_svd":
            p = 2 if name == "trunc_svd" else r.choice([1, 2, np.inf, "inf"])
            t2 = tol if name == "trunc_svd" else r.choice([0.01, 0.2, 0.5])

            def f(x, a, b, c):
                return x.trunc_svd(a, b, c)

            def chk(res):
                _check_svd(name, res, m, t2, lim, kind, par, slack,
                           np.inf if p == "inf" else p)
            return Op(name, f, [tr.obj, np.array(m), t2, p], None, check=chk)

        def chk(res):
            _check_svd(name, res, m, tol, lim, kind, par, slack)
        if name == "truncate2" and not can:
            return Op(name, lambda x, y: x.truncate(y), [tr.obj, e.obj], None,
                      check=chk)
        return Op(name, lambda x, y: x.svd(y), [tr.obj, e.obj], None,
                  check=chk)
    if par:
        return None                        # thresholding: matrices only
    if name in ("hosvd", "truncate"):
        e = _pick(r, pool, lambda e: isinstance(e.obj, tensap.FullTensor)
                  and e.model.ndim > 2)
        if e is None or not np.any(e.model):
            return None
        m = e.model
        d = m.ndim
        lims = _lims(s, d)
        if lims is None:
            return None
        arg = e.obj
        if r.random() < 0.2:
            arg = np.array(m)

        def chk(res):
            leaves = [int(k) for k in res.tree.dim2ind]
            n = len(res.tensors)
            full = [1] * n
            for i, k in enumerate(leaves):
                full[k - 1] = lims[i]
            _check_tree(name, res, m, tol, full, [True] * n,
                        1e-9 * e.mag * m.size, True)
        return Op(name, (lambda x, y: x.hosvd(y)) if name == "hosvd" else
                  (lambda x, y: x.truncate(y)), [tr.obj, arg], None, check=chk)
    if name in ("hsvd_full", "ttsvd"):
        e = _pick(r, pool, lambda e: isinstance(e.obj, tensap.FullTensor)
                  and e.model.ndim > 1)
        if e is None or not np.any(e.model):
            return None
        m = e.model
        d = m.ndim
        slack = 1e-9 * e.mag * m.size
        if name == "ttsvd":
            lims = _lims(s, 2 * d - 1, 1)
            if lims is None:
                return None

            def chk(res):
                n = len(res.tensors)
                leaves = [int(k) for k in res.tree.dim2ind]
                act = [k + 1 not in leaves[1:] for k in range(n)]
                _check_tree(name, res, m, tol, lims, act, slack, True)
            return Op(name, lambda x, y: x.ttsvd(y), [tr.obj, e.obj], None,
                      check=chk)
        rr = d > 2 and r.random() < 0.25
        dd = d - 1 if rr else d
        d2i, adj = make_tree(r, dd)
        n = len(adj)
        if n < 3:
            return None
        tree = tensap.DimensionTree(d2i, adj)
        _, root = _node_dims(tree)
        lims = _lims(s, n, root)
        if lims is None:
            return None
        act = [True] * n
        args = [tr.obj, e.obj, tree]
        if r.random() < 0.5:
            for k in d2i:
                act[k - 1] = r.random() < 0.6
            args.append(np.array(act))

        def chk(res):
            if res.tree != tree:
                raise Violation("value:" + name, "another tree")
            _check_tree(name, res, m, tol, lims, act, slack, True)
        return Op(name, lambda x, *a: x.hsvd(*a), args, None, check=chk)
    if name in ("hsvd_tbt", "truncate_tbt"):
        e = _pick(r, pool, lambda e: isinstance(e.obj, tensap.TreeBasedTensor))
        if e is None or not np.any(e.model):
            return None
        m = e.model
        _, root = _node_dims(e.obj.tree)
        n = len(e.obj.tensors)
        lims = _lims(s, n, root)
        if lims is None:
            return None
        act = [bool(a) for a in e.obj.is_active_node]
        if name == "truncate_tbt" and m.ndim < 2:
            return None
        d = len(e.obj.tree.dim2ind)

        def chk(res):
            _check_tree(name, res, m, tol, lims, act,
                        3e-6 * e.mag * np.sqrt(m.size), tol > 1e-4)
        return Op(name, (lambda x, y: x.hsvd(y)) if name == "hsvd_tbt" else
                  (lambda x, y: x.truncate(y)), [tr.obj, e.obj], None,
                  check=chk)
    raise KeyError(name)


def _bad_set(name, a, b):
    raise Violation("settings:" + name, "%s, asked for %s" % (a, b))


OPS = ["new", "repr", "trunc_svd", "trunc_p", "svd", "truncate2", "hosvd",
       "hosvd", "truncate", "hsvd_full", "hsvd_full", "ttsvd", "hsvd_tbt",
       "hsvd_tbt", "hsvd_tbt", "truncate_tbt"]


def _lowrank(r, shape):
    """A full array with decaying singular values in every direction."""
    d = len(shape)
    out = np.zeros(shape)
    for q in range(r.choice([1, 2, 3, 5])):
        v = np.array(1.0)
        for s in shape:
            v = np.multiply.outer(v, g(r, (s,)))
        out = out + v * r.choice([1, 0.5, 0.1, 1e-2]) ** q
    if r.random() < 0.4:
        out = out + r.choice([1e-9, 1e-3, 0.1]) * g(r, shape)
    return out


def start(r, cfg):
    pool = []
    for _ in range(r.randint(1, 3)):
        op = make("new", r, pool)
        t = op.call()
        pool.append(Entry(t, settings(t)))
    for _ in range(r.randint(2, 4)):
        w = r.random()
        if w < 0.3:
            m = _lowrank(r, [r.randint(1, 6), r.randint(1, 6)])
            x = m.copy() if r.random() < 0.5 else tensap.FullTensor(m)
        elif w < 0.4:
            R = r.randint(1, 3)
            sh = [r.randint(2, 5), r.randint(2, 5)]
            x = tensap.CanonicalTensor([g(r, (s, R)) for s in sh],
                                       g(r, (R,)))
        elif w < 0.7:
            x = tensap.FullTensor(_lowrank(r, [
                r.randint(1, 4) for _ in range(r.choice([3, 3, 4]))]))
        else:
            d = r.choice([2, 3, 3, 4])
            d2i, adj = make_tree(r, d)
            x = build_tbt(make_tbt(r, d2i, adj, [
                r.randint(1, 4) for _ in range(d)],
                root_rank=r.choice([1, 1, 1, 2]),
                inactive=r.choice([0, 0, 0.4]), maxrank=r.choice([2, 4]),
                deficient=r.choice([0, 0.3])), d2i, adj)
        pool.append(Entry(x, dense(x)))
    return pool


def keep(r, op, res, got):
    return Entry(res, settings(res))
