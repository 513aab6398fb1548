"""Operations on multi-index sets and grids against lists of tuples."""
import itertools

import numpy as np

from .core import Violation, tensap
from .dense import g
from .opbase import Entry, Op

MI = tensap.MultiIndices
CAP = 120
EPS = 1e-9


def rows(x):
    a = np.asarray(x.array if hasattr(x, "array") and not callable(x.array)
                   else x)
    return [tuple(int(v) for v in r) for r in a]


def uniq(seq):
    return list(dict.fromkeys(seq))


def value(x):
    return np.array(x.array, dtype=float)


def _bad(name, got, want):
    raise Violation("value:" + name, "%s: got %s, expected %s" % (
        name, str(got)[:300], str(want)[:300]))


def _set_op(name, fn, args, want, d, ordered=True, member=None):
    """Result: a MultiIndices equal to want() (ordered, or as a set)."""
    def chk(res):
        if not isinstance(res, MI):
            raise Violation("type:" + name, "%s returned %s" % (
                name, type(res).__name__))
        a = np.asarray(res.array)
        if a.ndim != 2 or a.shape[1] != d:
            raise Violation("shape:" + name, "%s: array of shape %s" % (
                name, a.shape))
        if a.size and not np.all(a == np.round(a)):
            raise Violation("value:" + name, "not integers")
        got = rows(res)
        if int(res.cardinal()) != len(got) or int(res.ndim()) != d:
            raise Violation("report:" + name, "cardinal or dimension")
        if member is not None:
            member(got)
            return
        w = want()
        if ordered:
            if got != w:
                _bad(name, got, w)
        else:
            if len(set(got)) != len(got):
                raise Violation("duplicates:" + name, str(got)[:300])
            if sorted(got) != sorted(w):
                _bad(name, sorted(got), sorted(w))
    return Op(name, fn, args, None, check=chk, keep=True)


def _val(name, fn, args, want, tol=1e-12):
    def chk(res):
        got = np.asarray(res, dtype=float)
        w = np.asarray(want(), dtype=float)
        if got.shape != w.shape:
            got, w = got.reshape(-1), w.reshape(-1)
        if got.shape != w.shape:
            raise Violation("shape:" + name, "%s vs %s" % (got.shape, w.shape))
        if w.size and not np.max(np.abs(got - w)) <= tol * (
                1 + np.max(np.abs(w))):
            _bad(name, got, w)
    return Op(name, fn, args, None, check=chk)


def _pnorm(t, p, w=None):
    v = [abs(x) * (1.0 if w is None else w[i]) for i, x in enumerate(t)]
    if p == np.inf:
        return max(v)
    return sum(x ** p for x in v) ** (1.0 / p)


def _down(s):
    out = set()
    for t in s:
        out |= set(itertools.product(*[range(x + 1) for x in t]))
    return out


def _margin(s):
    out = []
    for t in s:
        for k in range(len(t)):
            u = t[:k] + (t[k] + 1,) + t[k + 1:]
            if u not in s:
                out.append(u)
    return set(out)


def _gen_member(name, d, inside, amb, bound):
    """Membership oracle with an ambiguous boundary."""
    def member(got):
        if len(set(got)) != len(got):
            raise Violation("duplicates:" + name, str(got)[:300])
        gs = set(got)
        for t in gs:
            if min(t) < 0 or (not inside(t) and not amb(t)):
                raise Violation("value:" + name, "%s is not a member" % (t,))
        for t in itertools.product(*[range(b + 1) for b in bound]):
            if inside(t) and not amb(t) and t not in gs:
                raise Violation("value:" + name, "%s is missing" % (t,))
    return member


def make(name, r, pool):
    if name == "bounded_norm":
        d = r.choice([1, 1, 2, 2, 3])
        p = r.choice([0.5, 1, 1, 2, 2, 3, np.inf])
        m = r.randint(0, 4 if d > 2 else 6)

        def ins(t):
            return _pnorm(t, p) <= m

        def amb(t):
            return p not in (1, np.inf) and abs(_pnorm(t, p) - m) < EPS
        return _set_op(name, MI.with_bounded_norm, [d, p, m], None, d,
                       member=_gen_member(name, d, ins, amb, [m] * d))
    if name == "bounded_wnorm":
        d = r.choice([1, 2, 2, 3])
        p = r.choice([0.5, 1, 2, np.inf])
        m = r.choice([0, 1, 2, 3, 4.5])
        w = [r.choice([0.5, 1, 1, 2, 1.5]) for _ in range(d)]
        if r.random() < 0.5:
            w = np.array(w, dtype=float)

        def ins(t):
            return _pnorm(t, p, w) <= m

        def amb(t):
            return abs(_pnorm(t, p, w) - m) < EPS and p not in (1, np.inf)
        return _set_op(name, MI.with_bounded_weighted_norm, [d, p, m, w], None,
                       d, member=_gen_member(name, d, ins, amb, [
                           int(m / x) + 1 for x in w]))
    if name == "bounded_by":
        d = r.randint(1, 3)
        m = [r.randint(0, 3) for _ in range(d)]
        m0 = r.choice([0, 0, 1])
        if m0 and min(m) < 1:
            return None
        args = [m, m0] if m0 else [np.array(m) if r.random() < 0.5 else m]
        return _set_op(name, MI.bounded_by, args, lambda: [
            t[::-1] for t in itertools.product(
                *[range(m0, x + 1) for x in m[::-1]])], d)
    if name in ("hyperbolic", "whyperbolic"):
        d = r.randint(1, 3)
        p = r.randint(0, 6)
        w = [1] * d
        args = [d, p]
        if name == "whyperbolic":
            w = [r.choice([1, 1, 2, 0.5]) for _ in range(d)]
            args = [d, p, w if r.random() < 0.5 else np.array(w)]

        def val(t):
            return float(np.prod([(x + 1.0) ** y for x, y in zip(t, w)]))
        f = MI.hyperbolic_cross_set if name == "hyperbolic" else \
            MI.weighted_hyperbolic_cross_set
        return _set_op(name, f, args, None, d, member=_gen_member(
            name, d, lambda t: val(t) <= p + 1,
            lambda t: 0.5 in w and abs(val(t) - p - 1) < EPS,
            [int((p + 1) ** (1 / y)) + 1 for y in w]))
    if name == "low_order":
        d, p, m = r.randint(1, 4), r.randint(0, 3), r.randint(0, 3)
        return _set_op(name, MI.low_order_interactions, [d, p, m], None, d,
                       member=_gen_member(
                           name, d, lambda t: max(t) <= p and
                           sum(x > 0 for x in t) <= m, lambda t: False,
                           [p] * d))
    if name == "product_set":
        w = r.random()
        if w < 0.3:
            n, d = r.randint(1, 4), r.randint(1, 3)
            L = [r.randint(0, 4) for _ in range(n)]
            ex = [t[::-1] for t in itertools.product(*[L] * d)]
            if r.random() < 0.5:
                L = np.array(L)
            else:
                L = [np.array(L)]
            if np.ndim(L) == 1 and d == 1:
                L = [L]
            return _set_op(name, MI.product_set, [L, d], lambda: ex, d)
        d = r.randint(1, 3)
        L, parts = [], []
        for _ in range(d):
            if r.random() < 0.3 and pool:
                e = pool[r.randrange(len(pool))]
                L.append(e.obj)
                parts.append(rows(e.model))
            else:
                a = [r.randint(0, 5) for _ in range(r.randint(1, 3))]
                L.append(a if r.random() < 0.5 else np.array(a))
                parts.append([(x,) for x in a])
        if np.prod([len(p) for p in parts]) > CAP:
            return None
        dd = sum(len(p[0]) if p else 0 for p in parts)
        if any(not p for p in parts) or dd > 7:
            return None
        ex = [sum(t[::-1], ()) for t in itertools.product(*parts[::-1])]
        if len(L) == 1 and not isinstance(L[0], MI):
            L = [np.array(L[0])]
        return _set_op(name, MI.product_set, [L], lambda: ex, dd)
    if name == "ind2sub":
        d = r.randint(1, 3)
        shape = [r.randint(1, 4) for _ in range(d)]
        N = int(np.prod(shape))
        ind = [r.randrange(N) for _ in range(r.randint(1, 6))]

        def ex():
            out = []
            for i in ind:
                t = []
                for s in shape:
                    t.append(i % s)
                    i //= s
                out.append(tuple(t))
            return out
        return _set_op(name, MI.ind2sub, [
            np.array(shape) if r.random() < 0.5 else shape,
            np.array(ind) if r.random() < 0.5 else ind], ex, d)
    if name == "construct":
        d = r.randint(1, 3)
        a = [[r.randint(0, 3) for _ in range(d)]
             for _ in range(r.randint(1, 6))]
        return _set_op(name, lambda x: MI(MI(x)), [np.array(a)],
                       lambda: [tuple(t) for t in a], d)
    if name in ("full_grid", "sparse_grid", "grid_at"):
        return _grid(name, r, pool)
    if not pool:
        return None
    e = pool[r.randrange(len(pool))]
    t, m = e.obj, rows(e.model)
    d, n = e.model.shape[1], len(m)
    same = [x for x in pool if x.model.shape[1] == d]
    b = same[r.randrange(len(same))]
    mb = rows(b.model)
    nonneg = all(min(x) >= 0 for x in m)
    dup = len(set(m)) != n
    if name == "union":
        return _set_op(name, lambda x, y: x.add_indices(y), [t, b.obj],
                       lambda: uniq(m + mb), d)
    if name == "remove":
        if r.random() < 0.5:
            return _set_op(name, lambda x, y: x.remove_indices(y), [t, b.obj],
                           lambda: [x for x in m if x not in set(mb)], d)
        if not n:
            return None
        k = r.sample(range(n), r.randint(1, n))
        arg = k if r.random() < 0.4 else np.array(k)
        if len(k) == 1 and r.random() < 0.5:
            arg = k[0]
        return _set_op(name, lambda x, y: x.remove_indices(y), [t, arg],
                       lambda: [x for i, x in enumerate(m) if i not in k], d)
    if name == "intersect":
        if dup or len(set(mb)) != len(mb):
            return None

        def chk(res):
            c, i, j = res
            got = rows(c)
            if sorted(got) != sorted(set(m) & set(mb)):
                _bad(name, got, sorted(set(m) & set(mb)))
            if [m[int(k)] for k in i] != got or [mb[int(k)] for k in j] != got:
                raise Violation("value:intersect", "positions are wrong")
        return Op(name, lambda x, y: x.intersect_indices(y), [t, b.obj], None,
                  check=chk)
    if name == "product":
        if r.random() < 0.15:
            return _set_op(name, lambda x: x.product(None), [t], lambda: m, d)
        o = pool[r.randrange(len(pool))]
        mo = rows(o.model)
        if n * len(mo) > CAP or d + o.model.shape[1] > 6 or not n * len(mo):
            return None
        return _set_op(name, lambda x, y: x.product(y), [t, o.obj],
                       lambda: [x + y for y in mo for x in m],
                       d + o.model.shape[1])
    if name == "shift":
        w = r.randrange(4)
        k = r.randint(0, 2)
        vec = r.random() < 0.5
        if w in (0, 1) and vec:
            k = np.array([r.randint(0, 2) for _ in range(d)])
        kk = [int(v) for v in np.ones(d, dtype=int) * k]
        f = [lambda x, y: x + y, lambda x, y: x - y, lambda x, y: y + x,
             lambda x, y: y - x][w]
        s = [lambda x, y: x + y, lambda x, y: x - y, lambda x, y: y + x,
             lambda x, y: y - x][w]
        return _set_op(name, f, [t, k], lambda: [
            tuple(s(x, y) for x, y in zip(u, kk)) for u in m], d)
    if name in ("eq", "le"):
        one = r.random() < 0.5 or not n
        if one:
            u = m[r.randrange(n)] if n and r.random() < 0.6 else tuple(
                r.randint(0, 3) for _ in range(d))
            other, mo = MI(np.array([u])), [u] * n
            if not n:
                return None
        else:
            mo = [x if r.random() < 0.5 else tuple(
                r.randint(0, 3) for _ in range(d)) for x in m]
            other = MI(np.array(mo))
        if name == "eq":
            return _val(name, lambda x, y: x == y, [t, other],
                        lambda: [x == y for x, y in zip(m, mo)])
        return _val(name, lambda x, y: x <= y, [t, other], lambda: [
            all(p <= q for p, q in zip(x, y)) for x, y in zip(m, mo)])
    if name == "eq_type":
        return _val(name, lambda x: float(bool(x == 3)), [t], lambda: 0.0)
    if name == "sub2ind":
        if not nonneg or not n:
            return None
        shape = [max(x[k] for x in m) + r.randint(1, 3) for k in range(d)]

        def ex():
            out = []
            for x in m:
                v, s = 0, 1
                for k in range(d):
                    v += x[k] * s
                    s *= shape[k]
                out.append(v)
            return out
        if np.prod(shape) > 1e9:
            return None
        return _val(name, lambda x, y: x.sub2ind(y), [t, shape], ex)
    if name == "roundtrip":
        if not nonneg or not n:
            return None
        shape = [max(x[k] for x in m) + r.randint(1, 3) for k in range(d)]
        if np.prod(shape) > 1e9:
            return None
        return _set_op(name, lambda x, y: MI.ind2sub(y, x.sub2ind(y)),
                       [t, shape], lambda: m, d)
    if name == "norm":
        if not nonneg or not n:
            return None
        p = r.choice([1, 2, 3, 0.5, np.inf])
        if r.random() < 0.3:
            k = r.sample(range(n), r.randint(1, n))
            return _val(name, lambda x, y, z: x.norm(y, z), [t, p, k],
                        lambda: [_pnorm(m[i], p) for i in k])
        if r.random() < 0.2:
            return _val(name, lambda x: x.norm(), [t],
                        lambda: [_pnorm(x, 2) for x in m])
        return _val(name, lambda x, y: x.norm(y), [t, p],
                    lambda: [_pnorm(x, p) for x in m])
    if name == "wnorm":
        if not nonneg or not n:
            return None
        p = r.choice([1, 2, 0.5, np.inf])
        w = [r.choice([0.5, 1, 2, 1.5]) for _ in range(d)]
        if r.random() < 0.3:
            k = r.sample(range(n), r.randint(1, n))
            return _val(name, lambda x, y, z, u: x.weighted_norm(y, z, u),
                        [t, p, w, k], lambda: [_pnorm(m[i], p, w) for i in k])
        return _val(name, lambda x, y, z: x.weighted_norm(y, z), [t, p, w],
                    lambda: [_pnorm(x, p, w) for x in m])
    if name in ("sort_norm", "sort_wnorm"):
        if not nonneg:
            return None
        p = r.choice([1, 2, np.inf])
        w = [r.choice([0.5, 1, 2]) for _ in range(d)] \
            if name == "sort_wnorm" else None
        mode = r.choice(["ascend", "descend"])
        if not n:
            return None

        def member(got):
            if sorted(got) != sorted(m):
                _bad(name, got, m)
            v = [_pnorm(x, p, w) for x in got]
            if mode == "descend":
                v = v[::-1]
            if any(x > y + EPS for x, y in zip(v, v[1:])):
                raise Violation("order:" + name, "%s by %s" % (got, p))
        if w is None:
            return _set_op(name, lambda x, y, z: x.sort_by_norm(y, z),
                           [t, p, mode], None, d, member=member)
        return _set_op(name, lambda x, y, z, u:
                       x.sort_by_weighted_norm(y, z, u), [t, p, w, mode],
                       None, d, member=member)
    if name == "sort":
        cols = None
        if r.random() < 0.6:
            cols = r.sample(range(d), d if r.random() < 0.6
                            else r.randint(1, d))
        mode = r.choice(["ascend", "descend"])
        key = cols if cols is not None else list(range(d))[::-1]

        def member(got):
            if sorted(got) != sorted(m):
                _bad(name, got, m)
            v = [tuple(x[k] for k in key) for x in got]
            if v != sorted(v, reverse=mode == "descend"):
                raise Violation("order:sort", "%s by %s %s" % (got, key, mode))
        if cols is not None and r.random() < 0.5:
            cols = np.array(cols)
        if mode == "ascend" and r.random() < 0.5:
            return _set_op(name, lambda x, y: x.sort(y), [t, cols], None, d,
                           member=member)
        return _set_op(name, lambda x, y, z: x.sort(y, z), [t, cols, mode],
                       None, d, member=member)
    if name in ("keep_dims", "remove_dims"):
        if d < 2:
            return None
        k = r.sample(range(d), r.randint(1, d - 1))
        if name == "keep_dims" and r.random() < 0.6:
            k = sorted(k)
        arg = k if r.random() < 0.5 else np.array(k)
        if len(k) == 1 and r.random() < 0.4:
            arg = k[0]
        sel = k if name == "keep_dims" else [i for i in range(d)
                                            if i not in k]
        ex = (lambda: uniq(tuple(x[i] for i in sel) for x in m))
        if name == "keep_dims":
            return _set_op(name, lambda x, y: x.keep_dims(y), [t, arg], ex,
                           len(sel))
        return _set_op(name, lambda x, y: x.remove_dims(y), [t, arg], ex,
                       len(sel))
    if name in ("keep_indices", "get_indices"):
        if not n:
            return None
        k = r.sample(range(n), r.randint(1, n))
        arg = k if r.random() < 0.5 else np.array(k)
        if len(k) == 1 and r.random() < 0.4:
            arg = k[0]
        if name == "keep_indices":
            return _set_op(name, lambda x, y: x.keep_indices(y), [t, arg],
                           lambda: [m[i] for i in k], d)
        return _val(name, lambda x, y: x.get_indices(y), [t, arg],
                    lambda: [m[i] for i in k])
    if name == "is_down":
        if not nonneg or not n or any(
                np.prod([v + 1 for v in x]) > 400 for x in m):
            return None
        return _val(name, lambda x: float(x.is_downward_closed()), [t],
                    lambda: float(_down(set(m)) == set(m)))
    if name == "down_hull":                 # a downward closed set for later
        if not nonneg or not n:
            return None
        s = sorted(_down(set(m[:4])))
        if len(s) > CAP:
            return None
        return _set_op(name, lambda x: MI(np.array(x)), [s], lambda: s, d)
    if name == "envelope":
        if not n:
            return None
        u = [r.choice([-1, 1]) * round(r.random(), 3) for _ in range(n)]
        arg = np.array(u) if r.random() < 0.6 else u
        return _val(name, lambda x, y: x.envelope(y), [t, arg], lambda: [
            max(abs(u[j]) for j in range(n) if all(
                p >= q for p, q in zip(m[j], m[i]))) for i in range(n)])
    if name == "maximal":
        if not nonneg or not n or dup or _down(set(m)) != set(m):
            return None
        return _set_op(name, lambda x: x.get_maximal_indices(), [t], lambda: [
            x for x in m if not any(x != y and all(
                p <= q for p, q in zip(x, y)) for y in m)], d, ordered=False)
    if name in ("margin", "reduced_margin"):
        if not nonneg or not n or n > 60:
            return None
        s = set(m)
        mg = _margin(s)
        if name == "margin":
            return _set_op(name, lambda x: x.get_margin(), [t],
                           lambda: sorted(mg), d, ordered=False)
        return _set_op(name, lambda x: x.get_reduced_margin(), [t], lambda: [
            u for u in mg if all(u[k] == 0 or u[:k] + (u[k] - 1,) + u[k + 1:]
                                 in s for k in range(d))], d, ordered=False)
    if name == "to_list":
        def chk(res):
            if len(res) != d or [tuple(int(v) for v in x)
                                 for x in zip(*res)] != m:
                _bad(name, res, m)
            if int(t.cardinal()) != n or int(t.ndim()) != d:
                raise Violation("report:to_list", "cardinal or dimension")
            repr(t)
        return Op(name, lambda x: x.to_list(), [t], None, check=chk)
    return None


def _grid(name, r, pool):
    d = r.randint(1, 3)
    gs = []
    for _ in range(d):
        a = g(r, (r.randint(1, 4),))
        if r.random() < 0.4:
            a = a.reshape(-1, 1)
        if r.random() < 0.15:
            a = g(r, (r.randint(1, 3), 2))     # a vector-valued factor
        gs.append(a)
    if name == "full_grid" and r.random() < 0.3:
        a = g(r, (r.randint(1, 4),))
        args, gs = [a, d], [a] * d
    else:
        args = [gs]
    cols = [x.reshape(len(x), -1) for x in gs]
    shape = [len(x) for x in gs]
    full = [t[::-1] for t in itertools.product(*[range(s)
                                                for s in shape[::-1]])]

    def pts(idx):
        return [np.concatenate([cols[k][t[k]] for k in range(d)])
                for t in idx]
    if name == "full_grid":
        def chk(res):
            gr, arr = res
            if list(int(s) for s in gr.shape) != shape or \
                    int(gr.size) != len(full) or int(gr.ndim()) != d:
                raise Violation("report:full_grid", "shape, size or dimension")
            w = np.array(pts(full))
            if np.shape(arr) != w.shape or not np.array_equal(arr, w):
                _bad(name, arr, w)

        def f(*a):
            gr = tensap.FullTensorGrid(*a)
            return gr, gr.array()
        return Op(name, f, args, None, check=chk)
    k = r.randint(1, 5)
    idx = [tuple(r.randrange(s) for s in shape) for _ in range(k)]
    if name == "grid_at":
        def f(a, b):
            return tensap.FullTensorGrid(a).eval_at_indices(b)
        return _val(name, f, [gs, np.array(idx)], lambda: np.array(pts(idx)))
    idx = uniq(idx)
    ind = MI(np.array(idx))

    def f(a, b):
        gr = tensap.SparseTensorGrid(a, b)
        if int(gr.size) != len(idx):
            raise Violation("report:sparse_grid", "size")
        return gr.array()
    return _val(name, f, [gs, ind], lambda: np.array(pts(idx)))


OPS = ["bounded_norm", "bounded_wnorm", "bounded_by", "hyperbolic",
       "whyperbolic", "low_order", "product_set", "ind2sub", "construct",
       "full_grid", "sparse_grid", "grid_at", "union", "union", "remove",
       "intersect", "product", "shift", "eq", "le", "eq_type", "sub2ind",
       "roundtrip", "norm", "wnorm", "sort_norm", "sort_wnorm", "sort",
       "keep_dims", "remove_dims", "keep_indices", "get_indices", "is_down",
       "down_hull", "envelope", "maximal", "margin", "reduced_margin",
       "to_list"]


def start(r, cfg):
    pool = []
    d = r.randint(1, 4)
    for _ in range(r.randint(1, 3)):
        n = r.randint(1, 8)
        m = uniq(tuple(r.randint(0, 3) for _ in range(d)) for _ in range(n))
        if r.random() < 0.4:
            m = sorted(_down(set(m[:2])))
        a = np.array(m)
        pool.append(Entry(MI(a.copy()), a))
    return pool


def keep(r, op, res, got):
    v = value(res)
    if v.shape[0] > CAP or v.shape[1] > 7 or v.shape[1] == 0:
        return None
    return Entry(res, v)
