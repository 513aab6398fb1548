"""Operations on full, canonical, diagonal and sparse tensors."""
import numpy as np

from .core import Violation, tensap
from .dense import dense, g, make_tree
from .opbase import Entry, Op, check_tbt
from .tops import _mode, _matricize, _nz, _spec

CAP = 3000
FULL, CAN, DIA, SPA = "full", "can", "dia", "spa"


def kind_of(x):
    return {"FullTensor": FULL, "CanonicalTensor": CAN, "DiagonalTensor": DIA,
            "SparseTensor": SPA, "TreeBasedTensor": "tbt"}.get(
                type(x).__name__)


def _truth(name, x):
    """What the tensor reports about itself."""
    k = kind_of(x)

    def bad(what, a, b):
        raise Violation("report:%s:%s" % (what, name), "%s: reported %s %s, "
                        "truth %s" % (name, what, a, b))
    if k == "tbt":
        check_tbt(x, name)
        return
    if k is None:
        return
    d = dense(x)
    sh = [int(s) for s in np.atleast_1d(x.shape)] if np.size(x.shape) else []
    if sh != list(d.shape):
        bad("shape", sh, d.shape)
    if int(x.order) != d.ndim or int(x.ndim) != d.ndim:
        bad("order", x.order, d.ndim)
    if k == FULL:
        if int(x.storage()) != d.size:
            bad("storage", x.storage(), d.size)
        if int(x.sparse_storage()) != np.count_nonzero(d):
            bad("sparse_storage", x.sparse_storage(), np.count_nonzero(d))
        if x.is_orth:
            m = np.moveaxis(d, x.orth_dim, -1)
            m = m.reshape(-1, m.shape[-1])
            if np.max(np.abs(m.T @ m - np.eye(m.shape[1])), initial=0) > 1e-8:
                bad("orthogonality", True, False)
    elif k == CAN:
        st = x.core.data.size + sum(s.size for s in x.space)
        if int(x.storage()) != st:
            bad("storage", x.storage(), st)
        nz = np.count_nonzero(x.core.data) + sum(
            np.count_nonzero(s) for s in x.space)
        if int(x.sparse_storage()) != nz:
            bad("sparse_storage", x.sparse_storage(), nz)
        if int(x.representation_rank()) != x.core.data.size:
            bad("rank", x.representation_rank(), x.core.data.size)
    elif k == DIA:
        if int(x.storage()) != x.data.size:
            bad("storage", x.storage(), x.data.size)
        if int(x.sparse_storage()) != np.count_nonzero(x.data):
            bad("sparse_storage", x.sparse_storage(),
                np.count_nonzero(x.data))
    elif k == SPA:
        idx = np.asarray(x.indices.array)
        if len({tuple(map(int, i)) for i in idx}) != len(idx):
            bad("indices", "duplicates", "unique")
        for f in ("storage", "sparse_storage", "count_non_zero"):
            if int(getattr(x, f)()) != len(idx):
                bad(f, getattr(x, f)(), len(idx))
        if int(x.size) != d.size:
            bad("size", x.size, d.size)


def _chk(name):
    return lambda res: _truth(name, res)


def _perm(r, n):
    p = list(range(n))
    r.shuffle(p)
    return p


def _diag_of(m, dims):
    """Diagonal over dims (moved first)."""
    mm = np.moveaxis(m, dims, range(len(dims)))
    return np.array([mm[(i,) * len(dims)] for i in range(mm.shape[0])])


def _einsum(a, la, b, lb, out):
    return np.einsum(a, la, b, lb, out)


def make(name, r, pool):
    want, _, what = name.partition(".")
    cands = [e for e in pool if kind_of(e.obj) == want]
    if not cands:
        return None
    e = cands[r.randrange(len(cands))]
    t, m = e.obj, e.model
    d = m.ndim
    shape = list(m.shape)
    if d == 0 or m.size == 0:
        return None

    def partner(cond=lambda x: True, anykind=False):
        c = [x for x in pool if (anykind or kind_of(x.obj) == want)
             and x.model.ndim and cond(x)]
        return c[r.randrange(len(c))] if c else None
    same = partner(lambda x: x.model.shape == m.shape)
    sc = e.mag * max(1, _nz(m))
    kw = dict(check=_chk(name), keep=True)

    # ---- common to all formats
    if what == "full":
        return Op(name, lambda x: x.full(), [t], lambda: m, **kw)
    if what == "numpy":
        if want == SPA and d != 2:
            return None
        return Op(name, lambda x: x.numpy(), [t], lambda: m, scale=e.mag)
    if what == "add":
        if want == DIA and same is None:
            return None
        b = same
        if b is None or _nz(m) > CAP:
            return None
        if want == CAN and t.core.data.size + b.obj.core.data.size > 12:
            return None
        return Op(name, lambda x, y: x + y, [t, b.obj], lambda: m + b.model,
                  scale=e.mag + b.mag, **kw)
    if what == "sub":
        b = same
        if b is None or want == SPA:
            return None
        if want == CAN and t.core.data.size + b.obj.core.data.size > 12:
            return None
        return Op(name, lambda x, y: x - y, [t, b.obj], lambda: m - b.model,
                  scale=e.mag + b.mag, **kw)
    if what == "neg":
        return Op(name, lambda x: -x, [t], lambda: -m, **kw)
    if what == "mul":
        b = same
        if b is None or want == CAN:
            return None
        if want == FULL and r.random() < 0.3:
            return Op(name, lambda x, y: x.hadamard_product(y), [t, b.obj],
                      lambda: m * b.model, scale=e.mag * b.mag, **kw)
        return Op(name, lambda x, y: x * y, [t, b.obj], lambda: m * b.model,
                  scale=e.mag * b.mag, **kw)
    if what == "scale":
        a = r.choice([2.0, -0.5, 3.0])
        w = r.randrange(5)
        f = [lambda x, y: x * y, lambda x, y: y * x, lambda x, y: x / y,
             lambda x, y: x + y, lambda x, y: x ** 2 - y][w]
        ex = [lambda: m * a, lambda: a * m, lambda: m / a, lambda: m + a,
              lambda: m ** 2 - a][w]
        return Op(name, f, [t, a], ex, scale=4 * e.mag + e.mag ** 2 + 4, **kw)
    if what == "dot":
        b = same
        if b is None:
            return None
        return Op(name, lambda x, y: x.dot(y), [t, b.obj],
                  lambda: np.sum(m * b.model), "scalar",
                  scale=e.mag * b.mag * _nz(m))
    if what == "norm":
        return Op(name, lambda x: x.norm(), [t],
                  lambda: np.sqrt(np.sum(m ** 2)), "scalar",
                  scale=e.mag * np.sqrt(_nz(m)), tol=1e-7)
    if what == "dot_metric":
        b = same
        if b is None or _nz(m) > CAP:
            return None
        mats = [g(r, (s, s)) for s in shape]
        return Op(name, lambda x, y, z: x.dot_with_rank_one_metric(y, z),
                  [t, b.obj, mats],
                  lambda: np.sum(m * _mode(b.model, mats, range(d))),
                  "scalar", scale=e.mag * b.mag * 10 ** d * _nz(m))
    if what == "tmp_except":
        b = same
        if b is None or d < 2:
            return None
        k = r.randrange(d)
        mats = [g(r, (s, s)) for s in shape]

        def exp():
            oth = [i for i in range(d) if i != k]
            return np.tensordot(m, _mode(b.model, [mats[i] for i in oth], oth),
                                axes=(oth, oth))
        return Op(name, lambda x, y, z, w:
                  x.tensordot_matrix_product_except_dim(y, z, w),
                  [t, b.obj, mats, k], exp,
                  scale=e.mag * b.mag * 10 ** d * _nz(m))
    if what in ("tmp", "tdiag", "tvp", "tmp_diag", "reduce_sum"):
        full = r.random() < 0.4
        dims = list(range(d)) if full else sorted(
            r.sample(range(d), r.randint(1, d)))
        if not full and r.random() < 0.3:
            r.shuffle(dims)
        if want == DIA and what in ("tdiag", "tvp"):
            # documented: the first/all vectors, no dims argument
            k = d if what == "tdiag" or r.random() < 0.5 else r.randint(1, d)
            vs = [g(r, (shape[0],)) for _ in range(k)]
            if r.random() < 0.3:
                arg = np.array(vs).T.copy()
            else:
                arg = vs

            def exp():
                if what == "tdiag":
                    return _mode(m, [np.diag(v) for v in vs], range(d))
                out = m
                for v in vs:
                    out = np.tensordot(v, out, axes=([0], [0]))
                return out
            if what == "tdiag":
                return Op(name, lambda x, y:
                          x.tensor_diagonal_matrix_product(y), [t, arg], exp,
                          scale=sc * 10 ** d, **kw)
            return Op(name, lambda x, y: x.tensor_vector_product(y), [t, arg],
                      exp, scale=sc * 10 ** d, **kw)
        if what == "tmp":
            mats = [g(r, (r.randint(1, 4), shape[k])) for k in dims]
            if want == SPA and r.random() < 0.3:
                mats = [np.abs(np.round(a)) for a in mats]
            new = list(shape)
            for k, a in zip(dims, mats):
                new[k] = a.shape[0]
            if np.prod(new) > CAP:
                return None
            ex = (lambda: _mode(m, mats, dims))
            if full:
                return Op(name, lambda x, y: x.tensor_matrix_product(y),
                          [t, mats], ex, scale=sc * 10 ** d, **kw)
            if len(dims) == 1 and r.random() < 0.5:
                return Op(name, lambda x, y, z: x.tensor_matrix_product(y, z),
                          [t, mats[0], dims[0]], ex, scale=sc * 10 ** d, **kw)
            return Op(name, lambda x, y, z: x.tensor_matrix_product(y, z),
                      [t, mats, np.array(dims)], ex, scale=sc * 10 ** d, **kw)
        if what == "tdiag":
            if want == CAN:
                return None
            vs = [g(r, (shape[k],)) for k in dims]
            ex = (lambda: _mode(m, [np.diag(v) for v in vs], dims))
            if full:
                return Op(name, lambda x, y:
                          x.tensor_diagonal_matrix_product(y), [t, vs], ex,
                          scale=sc * 10 ** d, **kw)
            return Op(name, lambda x, y, z:
                      x.tensor_diagonal_matrix_product(y, z),
                      [t, vs, np.array(dims)], ex, scale=sc * 10 ** d, **kw)
        if what == "tvp":
            vs = [g(r, (shape[k],)) for k in dims]
            if r.random() < 0.2:
                vs[0] = vs[0] * 0.0

            def exp():
                out = _mode(m, [v.reshape(1, -1) for v in vs], dims)
                return np.squeeze(out, tuple(dims))
            if full:
                return Op(name, lambda x, y: x.tensor_vector_product(y),
                          [t, vs], exp, "flat", scale=sc * 10 ** d, **kw)
            if len(dims) == 1 and r.random() < 0.5:
                return Op(name, lambda x, y, z: x.tensor_vector_product(y, z),
                          [t, vs[0], dims[0]], exp,
                          "flat" if len(dims) == d else "tensor",
                          scale=sc * 10 ** d, **kw)
            return Op(name, lambda x, y, z: x.tensor_vector_product(y, z),
                      [t, vs, np.array(dims)], exp,
                      "flat" if len(dims) == d else "tensor",
                      scale=sc * 10 ** d, **kw)
        if what == "reduce_sum":
            if want == FULL:
                mean = r.random() < 0.4
                ax = tuple(dims)
                op = np.mean if mean else np.sum
                return Op(name, (lambda x, y: x.reduce_mean(y)) if mean else
                          (lambda x, y: x.reduce_sum(y)), [t, ax],
                          lambda: op(m, ax, keepdims=True), scale=sc, **kw)
            if full:
                return Op(name, lambda x: x.reduce_sum(), [t],
                          lambda: np.sum(m), "flat", scale=sc, **kw)
            return Op(name, lambda x, y: x.reduce_sum(y), [t, np.array(dims)],
                      lambda: np.sum(m, axis=tuple(dims)),
                      "flat" if len(dims) == d else "tensor", scale=sc, **kw)
        # tmp_diag
        N = r.randint(1, 4)
        if want == SPA:
            dims, full = list(range(d)), True
        mats = [g(r, (N, shape[k])) for k in dims]

        def exp():
            mm = _mode(m, mats, dims)
            if len(dims) == 1 and want != FULL:
                return mm                  # documented degenerate case
            out = _diag_of(mm, sorted(dims))
            if want in (CAN, DIA) and len(dims) < d:
                out = np.moveaxis(out, 0, sorted(dims)[0])
            return out
        if full:
            return Op(name, lambda x, y: x.tensor_matrix_product_eval_diag(y),
                      [t, mats], exp, scale=sc * 10 ** d)
        return Op(name, lambda x, y, z:
                  x.tensor_matrix_product_eval_diag(y, z),
                  [t, mats, np.array(dims)], exp, scale=sc * 10 ** d, **kw)
    if what == "eval_diag":
        if len(set(shape)) == 1 and r.random() < 0.6:
            return Op(name, lambda x: x.eval_diag(), [t],
                      (lambda: _diag_of(m, range(d))) if d > 1 or want == CAN
                      or True else None,
                      "flat" if want == SPA else "tensor", scale=e.mag)
        if want == SPA:
            return None
        dims = sorted(r.sample(range(d), r.randint(1, d)))
        if len({shape[k] for k in dims}) > 1:
            return None
        if want == DIA:                    # a diagonal tensor: contiguous
            lo = r.randrange(d)
            dims = list(range(lo, min(d, lo + len(dims))))
        if want == CAN and r.random() < 0.3:
            r.shuffle(dims)

        def exp():
            if len(dims) == 1:
                return m
            return np.moveaxis(_diag_of(m, sorted(dims)), 0, min(dims))
        return Op(name, lambda x, y: x.eval_diag(y), [t, np.array(dims)], exp,
                  scale=e.mag, **kw)
    if what == "eval_at":
        k = r.randint(1, 5)
        I = np.array([[r.randrange(s) for s in shape] for _ in range(k)])
        if want == DIA and r.random() < 0.5:
            I[0] = I[0][0]
        if want == SPA and r.random() < 0.3:
            return Op(name, lambda x, y: x.eval_at_indices(y),
                      [t, tensap.MultiIndices(I)],
                      lambda: m[tuple(I.T)], "flat", scale=e.mag)
        return Op(name, lambda x, y: x.eval_at_indices(y), [t, I],
                  lambda: m[tuple(I.T)], "flat", scale=e.mag)
    if what == "eval_at_dims":
        dims = r.sample(range(d), r.randint(1, d))
        k = r.randint(1, 4)
        if len(dims) == 1:
            k = r.randint(1, 3)
        I = np.array([[r.randrange(shape[j]) for j in dims]
                      for _ in range(k)])
        if k == len(dims) and k > 1:
            return None                    # ambiguous orientation
        def exp():
            mm = np.moveaxis(m, dims, range(len(dims)))[tuple(I.T)]
            if len(dims) == d:
                return mm
            return np.moveaxis(mm, 0, min(dims))
        return Op(name, lambda x, y, z: x.eval_at_indices(y, z),
                  [t, I, np.array(dims)], exp,
                  "flat" if len(dims) == d else "tensor", scale=e.mag, **kw)
    if what == "reprs":
        return Op(name, lambda x: (repr(x), x.storage(), x.sparse_storage(),
                                   x.ndim), [t], None, check=lambda _:
                  _truth(name, t))

    # ---- full
    if want == FULL:
        if what == "reshape":
            p = _nz(m)
            divs = [k for k in range(1, p + 1) if p % k == 0]
            a = r.choice(divs)
            new = [a, p // a] if r.random() < 0.7 else [p]
            return Op(name, lambda x, y: x.reshape(y), [t, new],
                      lambda: np.reshape(m, new, order="F"), **kw)
        if what in ("transpose", "itranspose"):
            p = _perm(r, d)
            if what == "transpose":
                return Op(name, lambda x, y: x.transpose(y), [t, np.array(p)],
                          lambda: np.transpose(m, p), **kw)
            return Op(name, lambda x, y: x.itranspose(y), [t, np.array(p)],
                      lambda: np.transpose(m, np.argsort(p)), **kw)
        if what == "squeeze":
            ones = [k for k in range(d) if shape[k] == 1]
            if ones and r.random() < 0.5:
                dims = r.sample(ones, r.randint(1, len(ones)))
                return Op(name, lambda x, y: x.squeeze(y), [t, dims],
                          lambda: np.squeeze(m, tuple(dims)), **kw)
            return Op(name, lambda x: x.squeeze(), [t],
                      lambda: np.squeeze(m), **kw)
        if what == "getitem":
            idx = tuple(r.randrange(s) for s in shape)
            return Op(name, lambda x, y: x[y], [t, idx], lambda: m[idx],
                      "scalar", scale=e.mag)
        if what == "sub_tensor":
            idx, ii = [], []
            for s in shape:
                if r.random() < 0.35:
                    idx.append(":")
                    ii.append(list(range(s)))
                elif r.random() < 0.2:
                    k = r.randrange(s)
                    idx.append(k)
                    ii.append([k])
                else:
                    k = [r.randrange(s) for _ in range(r.randint(1, 3))]
                    idx.append(k)
                    ii.append(k)
            return Op(name, lambda x, y: x.sub_tensor(*y), [t, idx],
                      lambda: m[np.ix_(*ii)], **kw)
        if what == "cat":
            dims = sorted(r.sample(range(d), r.randint(1, d)))
            b = partner(lambda x: x.model.ndim == d and all(
                x.model.shape[k] == shape[k] for k in range(d)
                if k not in dims))
            if b is None or _nz(m) + _nz(b.model) > CAP / 4:
                return None

            def exp():
                s = [x + y if k in dims else x for k, (x, y) in
                     enumerate(zip(shape, b.model.shape))]
                out = np.zeros(s)
                out[tuple(slice(0, x) for x in shape)] = m
                out[tuple(slice(x, None) if k in dims else slice(None)
                          for k, x in enumerate(shape))] = b.model
                return out
            if len(dims) == d and r.random() < 0.5:
                return Op(name, lambda x, y: x.cat(y), [t, b.obj], exp,
                          scale=e.mag + b.mag, **kw)
            return Op(name, lambda x, y, z: x.cat(y, z),
                      [t, b.obj, np.array(dims)], exp, scale=e.mag + b.mag,
                      **kw)
        if what == "kron":
            b = partner(lambda x: x.model.ndim == d)
            if b is None or _nz(m) * _nz(b.model) > CAP:
                return None
            return Op(name, lambda x, y: x.kron(y), [t, b.obj],
                      lambda: np.kron(m, b.model), scale=e.mag * b.mag, **kw)
        if what == "orth":
            k = r.choice([-1] + list(range(d)))

            def chk(res):
                q, rm = res
                _truth(name, q)
                if not q.is_orth:
                    raise Violation("report:orthogonality:" + name, "not set")
                back = np.moveaxis(np.tensordot(np.asarray(q.data), rm,
                                                axes=([k % d], [0])), -1, k)
                if back.shape != m.shape or np.max(np.abs(back - m)) > \
                        1e-9 * max(e.mag, 1e-300) * _nz(m):
                    raise Violation("value:" + name, "q times r differs")
                if np.max(np.abs(np.tril(rm, -1)), initial=0) > 1e-9 * \
                        max(e.mag, 1e-300) * _nz(m):
                    raise Violation("value:" + name, "r is not triangular")
            return Op(name, lambda x, y: x.orth(y), [t, k], None, check=chk)
        if what == "tensordot":
            b = partner()
            if b is None:
                return None
            bd = b.model.ndim
            pairs = [(i, j) for i in range(d) for j in range(bd)
                     if shape[i] == b.model.shape[j]]
            r.shuffle(pairs)
            ii, jj = [], []
            for i, j in pairs:
                if i not in ii and j not in jj and len(ii) < 2:
                    ii.append(i)
                    jj.append(j)
            if not ii or _nz(m) * _nz(b.model) > 20 * CAP:
                return None
            out_sz = _nz(m) * _nz(b.model) / np.prod(
                [shape[i] for i in ii]) ** 2
            if out_sz > CAP:
                return None
            return Op(name, lambda x, y, u, v: x.tensordot(y, u, v),
                      [t, b.obj, np.array(ii), np.array(jj)],
                      lambda: np.tensordot(m, b.model, axes=(ii, jj)),
                      scale=sc * b.mag, **kw)
        if what == "tensordot_eval_diag":
            b = partner()
            if b is None or _nz(m) * _nz(b.model) > CAP:
                return None
            bd = b.model.ndim
            pairs = [(i, j) for i in range(d) for j in range(bd)
                     if shape[i] == b.model.shape[j]]
            r.shuffle(pairs)
            if not pairs:
                return None
            di, dj = pairs[0]
            ci, cj = [], []
            for i, j in pairs[1:]:
                if i != di and j != dj and i not in ci and j not in cj \
                        and len(ci) < 1 and r.random() < 0.7:
                    ci.append(i)
                    cj.append(j)
            la = list(range(d))
            lb = list(range(d, d + bd))
            lb[dj] = la[di]
            for i, j in zip(ci, cj):
                lb[j] = la[i]
            out = [x for x in la if x not in ci] + \
                [x for x in lb if x not in la]

            def exp():
                return np.einsum(m, la, b.model, lb, out)
            if not ci and r.random() < 0.5:
                return Op(name, lambda x, y, u, v:
                          x.outer_product_eval_diag(y, u, v),
                          [t, b.obj, di, dj], exp, scale=sc * b.mag, **kw)
            if not ci:
                return None
            return Op(name, lambda x, y, a1, a2, u, v:
                      x.tensordot_eval_diag(y, a1, a2, u, v),
                      [t, b.obj, np.array(ci), np.array(cj), di, dj], exp,
                      scale=sc * b.mag, **kw)
        if what == "matricize":
            dims = r.sample(range(d), r.randint(1, d - 1)) if d > 1 else [0]
            rest = [k for k in range(d) if k not in dims]

            def exp():
                return np.reshape(np.transpose(m, dims + rest), (
                    int(np.prod([shape[k] for k in dims])),
                    int(np.prod([shape[k] for k in rest]))), order="F")
            return Op(name, lambda x, y: x.matricize(y), [t, np.array(dims)],
                      exp, **kw)
        if what == "singular_values":
            def chk(res):
                if d == 2:
                    _spec(name, res, np.linalg.svd(m, compute_uv=False), sc)
                    return
                for k in range(d):
                    _spec(name, res[k], np.linalg.svd(
                        _matricize(m, [k]), compute_uv=False), sc)
            return Op(name, lambda x: x.singular_values(), [t], None,
                      check=chk) if d > 1 else None
        if what == "principal_components":
            if d < 2 or not np.any(m):
                return None
            dims = sorted(r.sample(range(d), r.randint(1, d - 1)))
            mat = np.reshape(np.transpose(m, dims + [
                k for k in range(d) if k not in dims]), (
                    int(np.prod([shape[k] for k in dims])), -1), order="F")
            par = r.choice([None, 0.1, 1e-6, 1, 2])

            def chk(res):
                u, s = res
                sv = np.linalg.svd(mat, compute_uv=False)
                if np.max(np.abs(u.T @ u - np.eye(u.shape[1]))) > 1e-8:
                    raise Violation("value:" + name, "not orthonormal")
                k = u.shape[1]
                _spec(name, np.diag(s), sv[:k], sc)
                err = np.linalg.norm(mat - u @ (u.T @ mat))
                tail = np.linalg.norm(sv[k:])
                if err > tail + 1e-8 * sc:
                    raise Violation("value:" + name, "not the principal ones")
                if par in (1, 2) and k > par:
                    raise Violation("value:" + name, "too many components")
                if isinstance(par, float) and par < 1 and \
                        err > par * np.linalg.norm(mat) * (1 + 1e-6) \
                        + 1e-9 * sc:
                    raise Violation("value:" + name, "tolerance not met")
            return Op(name, lambda x, y, z: x.alpha_principal_components(y, z),
                      [t, np.array(dims), par], None, check=chk)
        if what == "sparse":
            return Op(name, lambda x: x.sparse(), [t], lambda: m, **kw)
        if what == "tbt":
            return Op(name, lambda x: x.tree_based_tensor(), [t], lambda: m,
                      **kw) if d > 1 else None
        if what == "copy":
            return Op(name, lambda x: tensap.FullTensor(x), [t], lambda: m,
                      **kw)
        if what == "eq":
            b = same or e
            return Op(name, lambda x, y: float(x == y), [t, b.obj],
                      lambda: float(np.all(m == b.model)), "scalar",
                      scale=1.0) if b is e else None
        if what == "create":
            sh = [r.randint(1, 3) for _ in range(r.randint(1, 3))]
            w = r.randrange(3)
            if w == 2:
                v = g(r, (r.randint(1, 3),))
                k = r.randint(1, 3)

                def exp():
                    out = np.zeros([v.size] * k)
                    for i in range(v.size):
                        out[(i,) * k] = v[i]
                    return out
                return Op(name, lambda x, y: tensap.FullTensor.diag(x, y),
                          [v, k], exp, **kw)
            f = tensap.FullTensor.zeros if w else tensap.FullTensor.ones
            return Op(name, f, [np.array(sh)],
                      lambda: np.full(sh, 0.0 if w else 1.0), scale=1.0, **kw)

    # ---- canonical
    if want == CAN:
        if what == "orth":
            return Op(name, lambda x: x.orth(), [t], lambda: m, check=None,
                      scale=e.mag * 10) if d > 1 else None
        if what == "squeeze":
            ones = [k for k in range(d) if shape[k] == 1]
            if not ones:
                return None
            if r.random() < 0.5:
                return Op(name, lambda x: x.squeeze(), [t],
                          lambda: np.squeeze(m, tuple(ones)),
                          "flat" if len(ones) == d else "tensor", **kw)
            dims = r.sample(ones, r.randint(1, len(ones)))
            return Op(name, lambda x, y: x.squeeze(y), [t, dims],
                      lambda: np.squeeze(m, tuple(dims)),
                      "flat" if len(dims) == d else "tensor", **kw)
        if what == "grad":
            if d < 2:
                return None
            k = r.randint(1, d)
            N = r.randint(1, 4)
            mats = [g(r, (N, s)) for s in shape]
            R = t.core.data.size
            delta = g(r, (shape[k - 1], R))
            dims = [i for i in range(d) if i != k - 1]

            def f(x, H, dd, kk):
                y = x.tensor_matrix_product([H[i] for i in dd], dd)
                return y.parameter_gradient_eval_diag(kk, H)

            def chk(res):
                arr = np.asarray(res.data)
                want_ = np.zeros(N)
                for i in range(N):
                    for q in range(R):
                        v = mats[k - 1][i] @ delta[:, q]
                        for j in dims:
                            v = v * (mats[j][i] @ t.space[j][:, q])
                        want_[i] += v
                if arr.shape == (N, R, shape[k - 1]):
                    got = np.einsum("nqs,sq->n", arr, delta)
                elif arr.shape == (N, shape[k - 1], R):
                    got = np.einsum("nsq,sq->n", arr, delta)
                else:
                    raise Violation("shape:" + name, str(arr.shape))
                if arr.shape[1] == arr.shape[2]:
                    got2 = np.einsum("nsq,sq->n", arr, delta)
                    if np.max(np.abs(got2 - want_)) < \
                            np.max(np.abs(got - want_)):
                        got = got2
                if np.max(np.abs(got - want_)) > 1e-8 * (
                        np.max(np.abs(arr)) + 1) * 10 ** d * R:
                    raise Violation("value:" + name, "gradient wrong")
            return Op(name, f, [t, mats, dims, k], None, check=chk)
        if what == "tbt":
            if d < 2 or t.core.data.size > 4:
                return None
            d2i, adj = make_tree(r, d)
            tree = tensap.DimensionTree(d2i, adj)
            ch = [int(np.sum(np.asarray(adj)[k])) for k in range(len(adj))]
            if t.core.data.size ** (max(ch) + 1) > 5000:
                return None
            return Op(name, lambda x, y: x.tree_based_tensor(y), [t, tree],
                      lambda: m, **kw)
        if what == "create":
            sh = [r.randint(1, 3) for _ in range(r.randint(2, 3))]
            k = r.randint(1, 3)
            ones = r.random() < 0.5
            f = tensap.CanonicalTensor.ones if ones else \
                tensap.CanonicalTensor.zeros
            return Op(name, f, [k, np.array(sh)],
                      lambda: np.full(sh, float(k) if ones else 0.0),
                      scale=1.0, **kw)

    # ---- diagonal
    if want == DIA:
        if what == "sparse":
            return Op(name, lambda x: x.sparse(), [t], lambda: m, **kw)
        if what == "tbt":
            if d < 2 or shape[0] > 3:
                return None
            if r.random() < 0.5:
                return Op(name, lambda x: x.tree_based_tensor(), [t],
                          lambda: m, **kw)
            d2i, adj = make_tree(r, d)
            return Op(name, lambda x, y: x.tree_based_tensor(y),
                      [t, tensap.DimensionTree(d2i, adj)], lambda: m, **kw)
        if what == "sub_tensor":
            ii = [[r.randrange(s) for _ in range(r.randint(1, 3))]
                  for s in shape]
            return Op(name, lambda x, y: x.sub_tensor(*y), [t, ii],
                      lambda: m[np.ix_(*ii)], scale=e.mag, **kw)
        if what == "cat":
            b = partner(lambda x: x.model.ndim == d)
            if b is None or (shape[0] + b.model.shape[0]) ** d > CAP:
                return None
            def exp():
                n1, n2 = shape[0], b.model.shape[0]
                out = np.zeros([n1 + n2] * d)
                out[(slice(0, n1),) * d] = m
                out[(slice(n1, None),) * d] = b.model
                return out
            return Op(name, lambda x, y: x.cat(y), [t, b.obj], exp,
                      scale=e.mag + b.mag, **kw)
        if what == "kron":
            b = partner(lambda x: x.model.ndim == d)
            if b is None or (shape[0] * b.model.shape[0]) ** d > CAP:
                return None
            return Op(name, lambda x, y: x.kron(y), [t, b.obj],
                      lambda: np.kron(m, b.model), scale=e.mag * b.mag, **kw)
        if what == "tensordot":
            b = partner(lambda x: kind_of(x.obj) in (FULL, DIA), anykind=True)
            if b is None:
                return None
            pairs = [(i, j) for i in range(d) for j in range(b.model.ndim)
                     if shape[i] == b.model.shape[j]]
            if not pairs or _nz(m) * _nz(b.model) > CAP * shape[0] ** 2:
                return None
            i, j = pairs[r.randrange(len(pairs))]
            return Op(name, lambda x, y, u, v: x.tensordot(y, u, v),
                      [t, b.obj, i, j],
                      lambda: np.tensordot(m, b.model, axes=([i], [j])),
                      scale=sc * b.mag, **kw)
        if what == "orth":
            return Op(name, lambda x: x.orth(), [t], lambda: m, **kw)
        if what == "copy":
            return Op(name, lambda x: tensap.DiagonalTensor(x), [t],
                      lambda: m, **kw)
        if what in ("transpose", "itranspose"):
            p = _perm(r, d)
            return Op(name, (lambda x, y: x.transpose(y)) if what ==
                      "transpose" else (lambda x, y: x.itranspose(y)),
                      [t, np.array(p)], lambda: m, **kw)
        if what == "create":
            n, k = r.randint(1, 3), r.randint(1, 3)
            return Op(name, tensap.DiagonalTensor.ones, [n, k],
                      lambda: np.array(dense(tensap.FullTensor.diag(
                          np.ones(n), k))), scale=1.0, **kw)

    # ---- sparse
    if want == SPA:
        if what in ("transpose", "itranspose"):
            if d < 2:
                return None
            p = _perm(r, d)
            if what == "transpose":
                return Op(name, lambda x, y: x.transpose(y), [t, np.array(p)],
                          lambda: np.transpose(m, p), **kw)
            return Op(name, lambda x, y: x.itranspose(y), [t, np.array(p)],
                      lambda: np.transpose(m, np.argsort(p)), **kw)
        if what == "reshape":
            p = _nz(m)
            divs = [k for k in range(1, p + 1) if p % k == 0]
            a = r.choice(divs)
            new = [a, p // a]
            return Op(name, lambda x, y: x.reshape(y), [t, new],
                      lambda: np.reshape(m, new, order="F"), **kw)
        if what == "mulfull":
            b = partner(lambda x: kind_of(x.obj) == FULL
                        and x.model.shape == m.shape, anykind=True)
            if b is None:
                return None
            if r.random() < 0.5:
                return Op(name, lambda x, y: x.dot(y), [t, b.obj],
                          lambda: np.sum(m * b.model), "scalar",
                          scale=sc * b.mag)
            return Op(name, lambda x, y: x * y, [t, b.obj],
                      lambda: m * b.model, scale=e.mag * b.mag, **kw)
        if what == "copy":
            return Op(name, lambda x: tensap.SparseTensor(x), [t], lambda: m,
                      **kw)
        if what == "from_array":
            a = g(r, [r.randint(1, 3) for _ in range(r.randint(2, 4))],
                  "sparse")
            return Op(name, lambda x: tensap.SparseTensor(x), [a], lambda: a,
                      scale=1.0, **kw)
    return None


_W = {
    FULL: ["full", "numpy", "add", "sub", "neg", "mul", "scale", "dot",
           "norm", "dot_metric", "tmp_except", "tmp", "tdiag", "tvp",
           "tmp_diag", "reduce_sum", "eval_diag", "eval_at", "eval_at_dims",
           "reprs", "reshape", "transpose", "itranspose", "squeeze",
           "getitem", "sub_tensor", "cat", "kron", "orth", "tensordot",
           "tensordot_eval_diag", "matricize", "singular_values",
           "principal_components", "sparse", "tbt", "copy", "eq", "create"],
    CAN: ["full", "numpy", "add", "sub", "neg", "dot", "norm", "tmp", "tvp",
          "tmp_diag", "reduce_sum", "eval_diag", "reprs", "orth", "squeeze",
          "grad", "tbt", "create"],
    DIA: ["full", "numpy", "add", "sub", "neg", "mul", "dot", "norm",
          "dot_metric", "tmp_except", "tmp", "tdiag", "tvp", "tmp_diag",
          "eval_diag", "eval_at", "reprs", "sparse", "tbt", "sub_tensor",
          "cat", "kron", "tensordot", "orth", "copy", "transpose",
          "itranspose", "create"],
    SPA: ["full", "numpy", "add", "mul", "dot", "norm", "dot_metric", "tmp",
          "tdiag", "tvp", "tmp_diag", "eval_diag", "eval_at", "transpose",
          "itranspose", "reshape", "mulfull", "copy", "from_array"],
}
OPS = [k + "." + w for k in _W for w in _W[k]]


def start(r, cfg):
    pool = []
    d = r.choice([1, 2, 2, 3, 3, 4])
    shape = [r.randint(1, 3)] * d if r.random() < 0.4 else \
        [r.randint(1, 4) for _ in range(d)]

    def add(obj):
        pool.append(Entry(obj, dense(obj)))
    kinds = [FULL, CAN, DIA, SPA]
    if r.random() < 0.5:
        kinds = [r.choice(kinds)] + [FULL]
    for k in kinds:
        for _ in range(r.choice([1, 2])):
            if k == FULL:
                add(tensap.FullTensor(g(r, shape, r.choice(
                    ["gauss", "gauss", "int", "sparse"]))))
            elif k == CAN and d > 1:
                R = r.randint(1, 3)
                add(tensap.CanonicalTensor([g(r, (s, R)) for s in shape],
                                           g(r, (R,))))
            elif k == DIA:
                add(tensap.DiagonalTensor(g(r, (shape[0],), r.choice(
                    ["gauss", "sparse"])), d))
            elif k == SPA:
                a = g(r, shape, "sparse")
                if np.any(a) or r.random() < 0.3:
                    add(tensap.FullTensor(a).sparse())
    return pool


def keep(r, op, res, got):
    k = kind_of(res)
    if k in (None, "tbt") or got is None:
        return None
    if got.size == 0 or got.size > CAP or got.ndim == 0 or got.ndim > 6:
        return None
    if k == CAN and not isinstance(res.core, tensap.DiagonalTensor):
        return None
    e = Entry(res, got)
    if not np.isfinite(e.mag) or e.mag > 1e8:
        return None
    return e


def value(x):
    return dense(x)
