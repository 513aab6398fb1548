"""Operations on tree-based tensors, each with its dense meaning."""
import numpy as np

from .core import Violation, tensap
from .dense import (build_tbt, children_of, dense, dense_tbt, g, make_tbt,
                    make_tree, parents_of)
from .opbase import Entry, Op, check_tbt

T = None
CAP = 6000


def _ix(model, idx):
    return model[np.ix_(*idx)]


def _mode(model, mats, dims):
    out = model
    for m, d in zip(mats, dims):
        out = np.moveaxis(np.tensordot(m, out, axes=([1], [d])), 0, d)
    return out


def _tree(t):
    adj = np.asarray(t.tree.adjacency_matrix)
    d2i = [int(k) for k in t.tree.dim2ind]
    par = parents_of(adj)
    return adj, d2i, par, par.index(0) + 1


def _dims_of(t, nod):
    adj, d2i, par, root = _tree(t)
    out = []

    def rec(k):
        ch = children_of(adj, k)
        if not ch:
            out.append(d2i.index(k))
        for j in ch:
            rec(j)
    rec(nod)
    return sorted(out)


def _same_tree(a, b):
    return (np.array_equal(a.obj.tree.adjacency_matrix,
                           b.obj.tree.adjacency_matrix)
            and np.array_equal(a.obj.tree.dim2ind, b.obj.tree.dim2ind))


def _root_rank(e):
    return e.model.shape[-1] if e.model.ndim > int(e.obj.order) else 1


def _nz(m):
    return int(np.prod(m.shape)) if m.ndim else 1


def _tens(name):
    """check function: result is a truthful TreeBasedTensor."""
    def check(res):
        if isinstance(res, tensap.TreeBasedTensor):
            check_tbt(res, name)
        else:
            raise Violation("type:" + name, "%s returned %s" % (
                name, type(res).__name__))
    return check


def _maybe(name):
    def check(res):
        if isinstance(res, tensap.TreeBasedTensor):
            check_tbt(res, name)
    return check


def make(name, r, pool):
    """Build operation `name` on operands drawn from the pool, or None."""
    e = pool[r.randrange(len(pool))]
    t, m = e.obj, e.model
    d = int(t.order)
    rr = _root_rank(e)
    shape = list(m.shape[:d])
    adj, d2i, par, root = _tree(t)
    n = len(adj)
    single = n == 1

    def partner(cond):
        c = [x for x in pool if cond(x)]
        return c[r.randrange(len(c))] if c else None

    if name in ("add", "sub", "hadamard", "mul"):
        if single:
            return None
        b = partner(lambda x: _same_tree(e, x) and x.model.shape == m.shape)
        if b is None:
            return None
        if name in ("add", "sub"):
            if _nz(m) > CAP or np.max(t.ranks) + np.max(b.obj.ranks) > 12:
                return None
            if name == "add":
                return Op(name, lambda x, y: x + y, [t, b.obj],
                          lambda: m + b.model, check=_tens(name), keep=True,
                          scale=e.mag + b.mag)
            return Op(name, lambda x, y: x - y, [t, b.obj],
                      lambda: m - b.model, check=_tens(name), keep=True,
                      scale=e.mag + b.mag)
        if not np.array_equal(t.is_active_node, b.obj.is_active_node):
            return None
        if rr != _root_rank(b) or int(np.prod([max(1, x) for x in shape])) > 700:
            return None
        if np.max(t.ranks) * np.max(b.obj.ranks) > 12:
            return None
        # the kronecker product is formed first: bound its size
        if _kron_storage(t, b.obj) > 40000:
            return None
        f = (lambda x, y: x * y) if name == "mul" else \
            (lambda x, y: x.hadamard_product(y))
        return Op(name, f, [t, b.obj], lambda: m * b.model,
                  check=_tens(name), keep=True, scale=e.mag * b.mag)
    if name == "neg":
        return Op(name, lambda x: -x, [t], lambda: -m, check=_tens(name),
                  keep=True)
    if name in ("scale", "rscale", "div"):
        a = r.choice([0.5, -2.0, 3.0, 0.25, -1.0])
        if name == "scale":
            return Op(name, lambda x, y: x * y, [t, a], lambda: m * a,
                      check=_tens(name), keep=True)
        if name == "rscale":
            return Op(name, lambda x, y: y * x, [t, a], lambda: m * a,
                      check=_tens(name), keep=True)
        return Op(name, lambda x, y: x / y, [t, a], lambda: m / a,
                  check=_tens(name), keep=True)
    if name == "rmatrix":
        if rr < 2 or single:
            return None
        k = r.choice([2, rr, rr + 1])
        a = g(r, (k, rr))
        return Op(name, lambda x, y: y.__array__() @ np.eye(rr) * 1 if False
                  else x.__rmul__(y), [t, a],
                  lambda: np.tensordot(m, a, axes=([d], [1])),
                  check=_tens(name), keep=True, scale=e.mag * 10)
    if name == "full":
        return Op(name, lambda x: x.full(), [t], lambda: m)
    if name == "numpy":
        return Op(name, lambda x: x.numpy(), [t], lambda: m)
    if name == "copy":
        return Op(name, lambda x: tensap.TreeBasedTensor(x), [t], lambda: m,
                  check=_tens(name), keep=True)
    if name == "storage":
        def f(x):
            return [x.storage(), x.sparse_storage(), x.order, x.ndim,
                    list(map(int, x.shape)), str(x)[:20],
                    list(map(int, x.representation_rank))]

        def chk(res):
            check_tbt(t, name)
            if not single and res[4] != shape:
                raise Violation("report:shape:" + name, "%s vs %s" % (
                    res[4], shape))
        return Op(name, f, [t], None, check=chk)
    if name == "dot":
        if single:
            return None
        b = partner(lambda x: _same_tree(e, x) and x.model.shape == m.shape
                    and np.array_equal(t.is_active_node, x.obj.is_active_node))
        if b is None or rr > 1:
            return None
        return Op(name, lambda x, y: x.dot(y), [t, b.obj],
                  lambda: np.sum(m * b.model), "scalar",
                  scale=e.mag * b.mag * max(1, _nz(m)))
    if name == "dot_metric":
        if single or rr > 1:
            return None
        b = partner(lambda x: _same_tree(e, x) and x.model.shape == m.shape
                    and np.array_equal(t.is_active_node, x.obj.is_active_node))
        if b is None:
            return None
        mats = [g(r, (s, s)) for s in shape]
        return Op(name, lambda x, y, z: x.dot_with_rank_one_metric(y, z),
                  [t, b.obj, mats],
                  lambda: np.sum(m * _mode(b.model, mats, range(d))), "scalar",
                  scale=e.mag * b.mag * max(1, _nz(m)) * 10 ** d)
    if name == "norm":
        if single:
            return None
        return Op(name, lambda x: x.norm(), [t],
                  lambda: np.sqrt(np.sum(m ** 2)), "scalar",
                  scale=e.mag * np.sqrt(max(1, _nz(m))))
    if name in ("tmp", "tdiag", "tvp", "tmp_diag", "reduce_sum"):
        if single:
            return None
        full = r.random() < 0.4
        dims = list(range(d)) if full else sorted(
            r.sample(range(d), r.randint(1, d)))
        if not full and r.random() < 0.3:
            r.shuffle(dims)
        if name == "tmp":
            mats = [g(r, (r.randint(1, 4), shape[k])) for k in dims]
            new = list(shape)
            for k, a in zip(dims, mats):
                new[k] = a.shape[0]
            if np.prod(new) > CAP:
                return None
            if full:
                return Op(name, lambda x, y: x.tensor_matrix_product(y),
                          [t, mats], lambda: _mode(m, mats, dims),
                          check=_tens(name), keep=True)
            if len(dims) == 1 and r.random() < 0.5:
                return Op(name, lambda x, y, z: x.tensor_matrix_product(y, z),
                          [t, mats[0], dims[0]],
                          lambda: _mode(m, mats, dims),
                          check=_tens(name), keep=True)
            return Op(name, lambda x, y, z: x.tensor_matrix_product(y, z),
                      [t, mats, np.array(dims)], lambda: _mode(m, mats, dims),
                      check=_tens(name), keep=True)
        if name == "tdiag":
            vs = [g(r, (shape[k],)) for k in dims]
            if full:
                return Op(name,
                          lambda x, y: x.tensor_diagonal_matrix_product(y),
                          [t, vs], lambda: _mode(m, [np.diag(v) for v in vs],
                                                 dims),
                          check=_tens(name), keep=True)
            return Op(name,
                      lambda x, y, z: x.tensor_diagonal_matrix_product(y, z),
                      [t, vs, np.array(dims)],
                      lambda: _mode(m, [np.diag(v) for v in vs], dims),
                      check=_tens(name), keep=True)
        if name == "reduce_sum":
            if full:
                return Op(name, lambda x: x.reduce_sum(), [t],
                          lambda: np.sum(m, axis=tuple(range(d))), "flat",
                          scale=e.mag * _nz(m))
            return Op(name, lambda x, y: x.reduce_sum(y), [t, np.array(dims)],
                      lambda: np.sum(m, axis=tuple(dims)),
                      "flat" if len(dims) == d else "tensor",
                      check=_maybe(name), keep=True, scale=e.mag * _nz(m))
        if name == "tvp":
            vs = [g(r, (shape[k],)) for k in dims]

            def exp():
                out = _mode(m, [v.reshape(1, -1) for v in vs], dims)
                return np.squeeze(out, tuple(dims))
            kw = dict(check=_maybe(name), keep=True, scale=e.mag * _nz(m))
            if full:
                return Op(name, lambda x, y: x.tensor_vector_product(y),
                          [t, vs], exp, "flat", **kw)
            if len(dims) == 1 and r.random() < 0.5:
                return Op(name, lambda x, y, z: x.tensor_vector_product(y, z),
                          [t, vs[0], dims[0]], exp,
                          "flat" if len(dims) == d else "tensor", **kw)
            return Op(name, lambda x, y, z: x.tensor_vector_product(y, z),
                      [t, vs, np.array(dims)], exp,
                      "flat" if len(dims) == d else "tensor", **kw)
        N = r.randint(1, 4)
        mats = [g(r, (N, s)) for s in shape]

        def exp():
            full_ = _mode(m, mats, range(d))
            return np.array([full_[(i,) * d] for i in range(N)])
        return Op(name, lambda x, y: x.tensor_matrix_product_eval_diag(y),
                  [t, mats], exp, scale=e.mag * 10 ** d * _nz(m))
    if name == "sub_tensor":
        if single:
            return None
        idx = []
        for s in shape:
            if r.random() < 0.35:
                idx.append(":")
            else:
                idx.append([r.randrange(s) for _ in range(r.randint(1, 3))])
        ii = [list(range(s)) if i == ":" else i for i, s in zip(idx, shape)]
        if np.prod([len(i) for i in ii]) * rr > CAP:
            return None
        if rr > 1:
            return Op(name, lambda x, y: x.sub_tensor(*y), [t, idx],
                      lambda: m[np.ix_(*ii, range(rr))], check=_tens(name),
                      keep=True)
        return Op(name, lambda x, y: x.sub_tensor(*y), [t, idx],
                  lambda: _ix(m, ii), check=_tens(name), keep=True)
    if name == "eval_at":
        if single:
            return None
        k = r.randint(1, 5)
        I = np.array([[r.randrange(s) for s in shape] for _ in range(k)])
        return Op(name, lambda x, y: x.eval_at_indices(y), [t, I],
                  lambda: m[tuple(I.T)], scale=e.mag)
    if name == "eval_at_dims":
        if single or d < 2:
            return None
        if r.random() < 0.5:
            dim = [r.randrange(d)]
            k = r.randint(1, 3)
            I = np.array([[r.randrange(shape[dim[0]])] for _ in range(k)])
            return Op(name, lambda x, y, z: x.eval_at_indices(y, z),
                      [t, I, np.array(dim)],
                      lambda: np.take(m, I[:, 0], axis=dim[0]),
                      check=_maybe(name), keep=True)
        cands = [k for k in range(1, n + 1) if k != root
                 and children_of(adj, k)]
        if not cands:
            return None
        nod = cands[r.randrange(len(cands))]
        dims = _dims_of(t, nod)
        if len(dims) >= d or len(dims) < 2:
            return None
        k = r.randint(2, 4)
        I = np.array([[r.randrange(shape[j]) for j in dims] for _ in range(k)])

        def exp():
            mm = np.moveaxis(m, dims, range(len(dims)))
            return mm[tuple(I.T)]
        return Op("eval_at_dims", lambda x, y, z: x.eval_at_indices(y, z),
                  [t, I, np.array(dims)], exp, check=_maybe(name), keep=True)
    if name == "eval_diag":
        if single or len(set(shape)) != 1:
            return None
        s = shape[0]
        return Op(name, lambda x: x.eval_diag(), [t],
                  lambda: np.array([m[(i,) * d] for i in range(s)]),
                  scale=e.mag)
    if name == "eval_diag_nodes":
        # the diagonal together with the diagonals of the subtree tensors
        if single or len(set(shape)) != 1:
            return None
        s = shape[0]

        def chk(res):
            if len(res) != 2 or len(res[1]) != n:
                raise Violation("shape:" + name, "not (diagonal, one entry "
                                "per node)")
            want = np.array([m[(i,) * d] for i in range(s)])
            got = np.asarray(dense(res[0]), dtype=float)
            if got.shape != want.shape or np.max(np.abs(
                    got - want)) > 1e-9 * max(e.mag, 1e-300):
                raise Violation("value:" + name, "wrong diagonal")
            cores = [np.asarray(c.data) for c in t.tensors]
            for k in range(1, n + 1):
                if k == root or not t.is_active_node[k - 1]:
                    continue
                want = _node_diag(cores, adj, d2i, shape, k, s)
                got = np.asarray(res[1][k - 1].data, dtype=float)
                if got.shape != want.shape or np.max(np.abs(
                        got - want)) > 1e-9 * max(e.mag, np.max(
                            np.abs(want)), 1e-300):
                    raise Violation("value:" + name, "wrong evaluations at "
                                    "node %d" % k)
        return Op(name, lambda x: x.eval_diag(nargout=2), [t], None,
                  check=chk)
    if name == "activity":
        if single:
            return None
        act = [bool(np.asarray(c.data).size) for c in t.tensors]

        def f(x):
            return [[int(k) for k in np.atleast_1d(x.active_nodes)],
                    [int(k) for k in np.atleast_1d(x.non_active_nodes)],
                    [int(k) for k in np.atleast_1d(x.active_dims)],
                    [int(k) for k in np.atleast_1d(x.non_active_dims)],
                    [bool(x.is_active_dim(k)) for k in range(d)],
                    [bool(k) for k in np.atleast_1d(
                        x.is_active_dim(np.arange(d)))],
                    int(x.sparse_leaves_storage())]

        def chk(res):
            ad = [act[k - 1] for k in d2i]
            sl = sum(np.count_nonzero(c.data) if not children_of(adj, k + 1)
                     else np.asarray(c.data).size
                     for k, c in enumerate(t.tensors))
            want = [[k for k in range(1, n + 1) if act[k - 1]],
                    [k for k in range(1, n + 1) if not act[k - 1]],
                    [k for k in range(d) if ad[k]],
                    [k for k in range(d) if not ad[k]], ad, ad, sl]
            for a, b, w in zip(res, want, (
                    "active_nodes", "non_active_nodes", "active_dims",
                    "non_active_dims", "is_active_dim", "is_active_dim",
                    "sparse_leaves_storage")):
                if a != b:
                    raise Violation("report:%s:%s" % (w, name),
                                    "%s is %s, not %s" % (w, a, b))
        return Op(name, f, [t], None, check=chk)
    if name == "eval_diag_dims":
        cands = [k for k in range(1, n + 1) if k != root
                 and children_of(adj, k)
                 and len({shape[j] for j in _dims_of(t, k)}) == 1]
        if not cands or single:
            return None
        nod = cands[r.randrange(len(cands))]
        dims = _dims_of(t, nod)
        if len(dims) >= d or len(dims) < 2:
            return None
        s = shape[dims[0]]

        def exp():
            mm = np.moveaxis(m, dims, range(len(dims)))
            return np.array([mm[(i,) * len(dims)] for i in range(s)])
        return Op(name, lambda x, y: x.eval_diag(y), [t, np.array(dims)], exp,
                  check=_maybe(name), keep=True)
    if name == "cat":
        if single:
            return None
        b = partner(lambda x: _same_tree(e, x) and np.array_equal(
            t.is_active_node, x.obj.is_active_node) and _root_rank(x) == 1)
        if b is None or rr > 1:
            return None
        s2 = list(b.model.shape)
        if np.prod([x + y for x, y in zip(shape, s2)]) > CAP or \
                np.max(t.ranks) + np.max(b.obj.ranks) > 10:
            return None

        def exp():
            out = np.zeros([x + y for x, y in zip(shape, s2)])
            out[tuple(slice(0, x) for x in shape)] = m
            out[tuple(slice(x, None) for x in shape)] = b.model
            return out
        return Op(name, lambda x, y: x.cat(y), [t, b.obj], exp,
                  check=_tens(name), keep=True)
    if name == "kron":
        if single or rr > 1:
            return None
        b = partner(lambda x: _same_tree(e, x) and np.array_equal(
            t.is_active_node, x.obj.is_active_node) and _root_rank(x) == 1)
        if b is None:
            return None
        if _nz(m) * _nz(b.model) > CAP or \
                _kron_storage(t, b.obj) > 20000 or \
                np.max(t.ranks) * np.max(b.obj.ranks) > 10:
            return None
        return Op(name, lambda x, y: x.kron(y), [t, b.obj],
                  lambda: np.kron(m, b.model), check=_tens(name), keep=True)
    if name == "squeeze":
        if single:
            return None
        ones = [k for k in range(d) if shape[k] == 1]
        if not ones:
            return None
        if r.random() < 0.5:
            return Op(name, lambda x: x.squeeze(), [t],
                      lambda: np.squeeze(m, tuple(ones)),
                      "flat" if len(ones) == d else "tensor",
                      check=_maybe(name), keep=True)
        dims = sorted(r.sample(ones, r.randint(1, len(ones))))
        return Op(name, lambda x, y: x.squeeze(y), [t, np.array(dims)],
                  lambda: np.squeeze(m, tuple(dims)),
                  "flat" if len(dims) == d else "tensor",
                  check=_maybe(name), keep=True)
    if name == "orth":
        if single:
            return None

        def chk(res):
            check_tbt(res, name)
            if not res.is_orth:
                raise Violation("report:orthogonality:orth", "is_orth False")
        return Op(name, lambda x: x.orth(), [t], lambda: m, check=chk,
                  keep=True)
    if name == "orth_at":
        if single:
            return None
        act = [k for k in range(1, n + 1) if t.is_active_node[k - 1]]
        nod = act[r.randrange(len(act))]
        return Op(name, lambda x, y: x.orth_at_node(y), [t, nod], lambda: m,
                  check=_tens(name), keep=True, tol=2e-6)
    if name == "gramians":
        if single or rr > 1:
            return None
        act = [k for k in range(1, n + 1) if t.is_active_node[k - 1]
               and k != root]
        if not act:
            return None
        nod = act[r.randrange(len(act))]
        allnodes = r.random() < 0.5

        def chk(res):
            gram = res[0][nod - 1] if allnodes else res[0]
            ev = np.sort(np.linalg.eigvalsh(np.atleast_2d(gram)))[::-1]
            mat = _matricize(m, _dims_of(t, nod))
            sv = np.linalg.svd(mat, compute_uv=False) ** 2
            _spec(name, ev, sv, e.mag ** 2 * _nz(m))
            compare_dense(name, res[1], m, e.mag)
        if allnodes:
            return Op(name, lambda x: x.gramians(), [t], None, check=chk)
        return Op(name, lambda x, y: x.gramians(y), [t, nod], None, check=chk)
    if name == "singular_values":
        if single or rr > 1:
            return None

        def chk(res):
            for k in range(1, n + 1):
                if not t.is_active_node[k - 1]:
                    if res[k - 1] is not None:
                        raise Violation("value:" + name, "inactive node has "
                                        "singular values")
                    continue
                if k == root:
                    continue
                mat = _matricize(m, _dims_of(t, k))
                sv = np.linalg.svd(mat, compute_uv=False) ** 2
                _spec(name, np.asarray(res[k - 1]) ** 2, sv,
                      e.mag ** 2 * _nz(m))
        return Op(name, lambda x: x.singular_values(), [t], None, check=chk)
    if name == "is_admissible":
        if single or rr > 1:
            return None

        def exp():
            rk = [int(x) for x in t.ranks]
            ok = True
            rk[root - 1] = 1
            for k in range(1, n + 1):
                if not t.is_active_node[k - 1]:
                    rk[k - 1] = shape[d2i.index(k)]
            for k in range(1, n + 1):
                ch = children_of(adj, k)
                if not ch:
                    if t.is_active_node[k - 1]:
                        ok = ok and rk[k - 1] <= shape[d2i.index(k)]
                    continue
                ok = ok and rk[k - 1] <= np.prod([rk[j - 1] for j in ch])
                for j in ch:
                    if t.is_active_node[j - 1]:
                        ok = ok and rk[j - 1] <= rk[k - 1] * np.prod(
                            [rk[i - 1] for i in ch if i != j])
            return float(bool(ok))
        return Op(name, lambda x: float(x.is_admissible_rank()), [t], exp,
                  "scalar")
    if name == "inactivate":
        if single:
            return None
        leaves = [k for k in d2i if par[k - 1]]
        nods = r.sample(leaves, r.randint(1, len(leaves)))
        # cores grow: bound their size
        for k in range(1, n + 1):
            ch = children_of(adj, k)
            if ch:
                s = 1
                for j in ch:
                    s *= shape[d2i.index(j)] if j in nods or not \
                        t.is_active_node[j - 1] else int(t.ranks[j - 1])
                if s * int(max(1, t.ranks[k - 1])) > CAP:
                    return None
        return Op(name, lambda x, y: x.inactivate_nodes(y),
                  [t, np.array(nods)], lambda: m, check=_tens(name), keep=True)
    if name == "activate":
        if single:
            return None
        nods = [k for k in d2i if not t.is_active_node[k - 1]]
        if not nods:
            return None
        nods = r.sample(nods, r.randint(1, len(nods)))
        return Op(name, lambda x, y: x.activate_nodes(y), [t, np.array(nods)],
                  lambda: m, check=_tens(name), keep=True)
    if name == "change_root":
        if single or rr > 1:
            return None
        act = [k for k in range(1, n + 1) if t.is_active_node[k - 1]]
        nod = act[r.randrange(len(act))]
        return Op(name, lambda x, y: x.change_root(y), [t, nod], lambda: m,
                  check=_tens(name), keep=True)
    if name == "permute_nodes":
        if single or rr > 1:
            return None
        pairs = []
        for a in range(1, n + 1):
            for b in range(1, n + 1):
                if a != b and not _is_anc(par, a, b) and \
                        not _is_anc(par, b, a):
                    if t.is_active_node[a - 1] and t.is_active_node[b - 1]:
                        pairs.append((a, b))
        if not pairs or not np.any(m):
            return None
        a, b = pairs[r.randrange(len(pairs))]
        return Op(name, lambda x, y: x.permute_nodes(y), [t, [a, b]],
                  lambda: m, check=_tens(name), keep=True, tol=1e-6)
    if name == "perm_cost":
        # positive exactly for the nodes that can be exchanged with this one
        if single or rr > 1:
            return None
        a = r.randint(1, n)

        def chk(res):
            check_tbt(t, name)
            res = np.asarray(res, dtype=float)
            free = [b for b in range(1, n + 1) if not _is_anc(par, a, b)
                    and not _is_anc(par, b, a) and par[a - 1] != par[b - 1]]
            if res.shape != (n,) or [b for b in range(1, n + 1)
                                     if res[b - 1] != 0] != free:
                raise Violation("value:" + name, "costs %s of node %d, nodes "
                                "that can be exchanged with it: %s" % (
                                    res, a, free))
        return Op(name, lambda x, y: x.nodes_permutation_cost(y), [t, a],
                  None, check=chk)
    if name == "permute_leaves":
        if single or rr > 1 or not np.any(m):
            return None
        if not all(t.is_active_node[k - 1] for k in d2i):
            return None
        p = list(range(d))
        r.shuffle(p)
        return Op(name, lambda x, y: x.permute_leaves(y), [t, np.array(p)],
                  lambda: m, check=_tens(name), keep=True, tol=1e-6)
    if name in ("grad", "ftgrad"):
        # gradient of the diagonal with respect to one core
        if single or rr > 1:
            return None
        act = [k for k in range(1, n + 1) if t.is_active_node[k - 1]]
        nod = act[r.randrange(len(act))]
        N = r.randint(2, 4)
        mats = [g(r, (N, s)) for s in shape]
        delta = g(r, np.asarray(t.tensors[nod - 1].data).shape)
        # the matrices of the dimensions attached to the node itself are left
        # to the gradient
        ch = children_of(adj, nod)
        own = [d2i.index(nod)] if not ch else \
            [d2i.index(j) for j in ch if not t.is_active_node[j - 1]]
        dims = [k for k in range(d) if k not in own]

        def f(x, H, k, dd):
            if name == "ftgrad":
                return tensap.FunctionalTensor(x, H).parameter_gradient_eval(k)
            y = x.tensor_matrix_product([H[i] for i in dd], dd)
            return y.parameter_gradient_eval_diag(k, H)

        def chk(res):
            arr = np.asarray(res.data)
            if ch and name == "grad":
                # documented order: active children, then inactive ones
                perm = [i for i, j in enumerate(ch) if t.is_active_node[j - 1]]
                perm += [i for i, j in enumerate(ch)
                         if not t.is_active_node[j - 1]]
                perm += list(range(len(ch), delta.ndim))
                dl = np.transpose(delta, perm)
            else:
                dl = delta
            cores = [np.asarray(c.data) for c in t.tensors]
            cores[nod - 1] = delta
            mm = _mode(dense_tbt(build_tbt(cores, d2i, adj)), mats, range(d))
            want = np.array([mm[(i,) * d] for i in range(N)])
            if arr.shape != (N,) + dl.shape:
                raise Violation("shape:" + name, "gradient shape %s for core "
                                "%s" % (arr.shape, dl.shape))
            got = arr.reshape(N, -1) @ dl.reshape(-1)
            sc = max(np.max(np.abs(arr)) * np.sum(np.abs(delta)),
                     e.mag) + 1e-300
            if np.max(np.abs(got - want)) > 1e-8 * sc:
                raise Violation("value:" + name, "gradient at node %d wrong by"
                                " %.2e" % (nod, np.max(np.abs(got - want))))
        return Op(name, f, [t, mats, nod, dims], None, check=chk)
    if name == "ftgrad_pair":
        # gradient with respect to a core merged with the core of its parent
        if single or rr > 1:
            return None
        act = [k for k in range(1, n + 1) if t.is_active_node[k - 1]
               and k != root]
        if not act:
            return None
        nod = act[r.randrange(len(act))]
        pa = par[nod - 1]
        N = r.randint(2, 4)
        mats = [g(r, (N, s)) for s in shape]
        da = g(r, np.asarray(t.tensors[nod - 1].data).shape)
        dg = g(r, np.asarray(t.tensors[pa - 1].data).shape)
        low = r.random() < 0.4
        kind = "dmrg_low_rank" if low else "dmrg"

        def chk(res):
            if low and (not isinstance(res, list) or len(res) != 2):
                raise Violation("shape:" + name, "not two factors")
            # axes: alpha's own, then gamma's without the edge to alpha
            pos = children_of(adj, pa).index(nod)
            dgm = np.moveaxis(dg, pos, 0)
            na = int(np.prod(da.shape[:-1]))
            ngm = int(np.prod(dgm.shape[1:]))
            fa, fg = da.shape[:-1], dgm.shape[1:]
            parts = [np.asarray(x.data) for x in res] if low else \
                [np.asarray(res.data)]
            want_sh = [(N,) + fa, (N,) + fg] if low else [(N,) + fa + fg]
            for x, w in zip(parts, want_sh):
                if x.shape != w:
                    raise Violation("shape:" + name, "gradient shape %s, not "
                                    "%s" % (x.shape, w))
            if low:
                arr = np.einsum("ni,nj->nij", parts[0].reshape(N, na),
                                parts[1].reshape(N, ngm))
            else:
                arr = parts[0].reshape(N, na, ngm)
            pair = da.reshape(na, -1) @ dgm.reshape(dgm.shape[0], ngm)
            got = np.einsum("nij,ij->n", arr, pair)
            cores = [np.asarray(c.data) for c in t.tensors]
            cores[nod - 1], cores[pa - 1] = da, dg
            mm = _mode(dense_tbt(build_tbt(cores, d2i, adj)), mats, range(d))
            want = np.array([mm[(i,) * d] for i in range(N)])
            sc = max(np.max(np.abs(arr)) * np.sum(np.abs(pair)),
                     e.mag) + 1e-300
            if np.max(np.abs(got - want)) > 1e-8 * sc:
                raise Violation("value:" + name, "gradient at the edge of "
                                "node %d wrong by %.2e" % (
                                    nod, np.max(np.abs(got - want))))
        return Op(name, lambda x, H, k, w: tensap.FunctionalTensor(
            x, H).parameter_gradient_eval_dmrg(k, None, w),
            [t, mats, nod, kind], None, check=chk)
    if name == "unary":
        # same value on the tree without nodes that have a single child
        return Op(name, lambda x: x.remove_unique_children(), [t], lambda: m,
                  check=_tens(name), keep=True) \
            if rr == 1 and all(t.is_active_node) and not single else None
    if name == "constant":
        if single:
            return None
        ones = r.random() < 0.5
        rk = [r.randint(1, 2) for _ in range(n)]
        rk[root - 1] = 1
        tree = tensap.DimensionTree(d2i, adj)
        gen = tensap.TreeBasedTensor.ones if ones else \
            tensap.TreeBasedTensor.zeros

        def exp():
            # every contraction over a rank sums that many ones
            return np.full(shape, float(np.prod(rk)) if ones else 0.0)
        return Op(name, lambda a, b, c: gen(a, b, c),
                  [tree, np.array(rk), np.array(shape)], exp,
                  check=_tens(name), keep=True)
    if name == "tt":
        k = r.randint(2, 4)
        sh = [r.randint(1, 3) for _ in range(k)]
        rk = [1] + [r.randint(1, 3) for _ in range(k - 1)] + [1]
        cores = [g(r, (rk[i], sh[i], rk[i + 1])) for i in range(k)]

        def exp():
            out = cores[0]
            for c in cores[1:]:
                out = np.tensordot(out, c, axes=([out.ndim - 1], [0]))
            return out.reshape(sh)
        args = [tensap.FullTensor(c.reshape(c.shape[1:] if i == 0 else
                                            c.shape[:2] if i == k - 1
                                            else c.shape))
                for i, c in enumerate(cores)]
        return Op(name, lambda a: tensap.TreeBasedTensor.tensor_train(a),
                  [args], exp, check=_tens(name), keep=True,
                  scale=10.0 ** k)
    if name == "truncate":
        if single or rr > 1 or n < 3 or not np.any(m):
            return None
        tol = r.choice([1e-13, 1e-3, 0.1, 0.5])
        lim = r.choice([np.inf, np.inf, 1, 2])

        def chk(res):
            check_tbt(res, name)
            err = np.linalg.norm(dense(res) - m)
            if lim == np.inf and err > 1.0001 * tol * np.linalg.norm(m) + \
                    1e-7 * e.mag * np.sqrt(_nz(m)):
                raise Violation("value:" + name, "truncation error %.3e over "
                                "tolerance %.1e" % (err, tol))
        return Op(name, lambda x, y: y.truncate(x),
                  [t, tensap.Truncator(tol, lim)], None, check=chk, keep=True)
    if name == "reprs":
        return Op(name, lambda x: (str(x), repr(x.tree)), [t], None)
    raise KeyError(name)


def _node_diag(cores, adj, d2i, shape, k, s):
    """Diagonal of the tensor of the subtree at node k: (s, rank)."""
    c = cores[k - 1]
    ch = children_of(adj, k)
    if not ch:
        return c
    subs = [np.eye(s) if cores[j - 1].size == 0 else
            _node_diag(cores, adj, d2i, shape, j, s) for j in ch]
    out = []
    for i in range(s):
        x = c
        for b in subs:
            x = np.tensordot(b[i], x, axes=([0], [0]))
        out.append(x)
    return np.array(out)


def _is_anc(par, a, b):
    """a is an ascendant of b (or equal)."""
    while b:
        if a == b:
            return True
        b = par[b - 1]
    return False


def _matricize(m, dims):
    rest = [k for k in range(m.ndim) if k not in dims]
    return np.transpose(m, list(dims) + rest).reshape(
        int(np.prod([m.shape[k] for k in dims])), -1)


def _spec(name, got, want, scale):
    got, want = np.sort(np.asarray(got, float))[::-1], np.sort(want)[::-1]
    k = max(got.size, want.size)
    a, b = np.zeros(k), np.zeros(k)
    a[:got.size], b[:want.size] = got, want
    if not np.all(np.abs(a - b) <= 1e-9 * max(scale, 1e-300)):
        raise Violation("value:" + name, "spectrum %s, expected %s" % (a, b))


def compare_dense(name, res, m, scale):
    got = dense(res)
    if got.shape != m.shape or np.max(np.abs(got - m), initial=0) > \
            1e-8 * max(scale, np.max(np.abs(m), initial=0), 1e-300):
        raise Violation("value:" + name, "%s: returned tensor differs" % name)


def _kron_storage(a, b):
    s = 0
    for x, y in zip(a.tensors, b.tensors):
        s += np.asarray(x.data).size * np.asarray(y.data).size
    return s


OPS = ["add", "sub", "mul", "hadamard", "neg", "scale", "rscale", "div",
       "rmatrix", "full", "numpy", "copy", "storage", "dot", "dot_metric",
       "norm", "tmp", "tdiag", "tvp", "tmp_diag", "reduce_sum", "sub_tensor",
       "eval_at", "eval_at_dims", "eval_diag", "eval_diag_dims",
       "eval_diag_nodes", "activity", "cat",
       "kron", "squeeze", "orth", "orth_at", "gramians", "singular_values",
       "is_admissible", "inactivate", "activate", "change_root",
       "permute_nodes", "perm_cost", "permute_leaves", "grad", "ftgrad",
       "ftgrad_pair", "reprs",
       "unary", "constant", "tt",
       "truncate"]


def start(r, cfg):
    """Initial pool: tensors on one or two trees."""
    pool = []
    for group in range(r.choice([1, 1, 2])):
        d = r.choice([2, 3, 3, 4, 4, 5])
        dim2ind, adj = make_tree(r, d, unary=cfg.get("unary", 0.0))
        if r.random() < 0.4:
            shape = [r.randint(1, 3)] * d
        else:
            shape = [r.randint(1, 4) for _ in range(d)]
        rr = r.choice([1, 1, 1, 1, 2])
        ina = r.choice([0, 0, 0.3, 1])
        for _ in range(r.choice([1, 2, 3])):
            cores = make_tbt(r, dim2ind, adj, shape, root_rank=rr,
                             inactive=ina, deficient=r.choice([0, 0, 0.3]),
                             kind=r.choice(["gauss", "gauss", "int",
                                            "sparse"]))
            t = build_tbt(cores, dim2ind, adj)
            pool.append(Entry(t, dense_tbt(t), group=group))
    return pool


def keep(r, op, res, got):
    """A result as a new pool member, if it may serve as an operand."""
    if not isinstance(res, tensap.TreeBasedTensor):
        return None
    if got.size > CAP or got.size == 0 or int(res.order) > 7:
        return None
    if np.max(res.ranks, initial=0) > 14 or int(res.storage()) > 20000:
        return None
    e = Entry(res, got)
    if not np.isfinite(e.mag) or e.mag > 1e12:
        return None
    return e


def value(x):
    return dense(x)
