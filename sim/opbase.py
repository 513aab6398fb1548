"""Operations with dense oracles, shared by several properties."""
import copy
import numpy as np

from .core import Violation, tensap, snap, diff
from .dense import dense, mag


class Entry:
    """A pool member: a live object with its dense model."""
    __slots__ = ("obj", "model", "mag", "group", "info", "born")

    def __init__(self, obj, model, group=0, info=None, born=0):
        self.obj = obj
        self.model = np.array(model, dtype=float)
        self.mag = max(mag(obj), float(np.max(np.abs(self.model)))
                       if self.model.size else 0.0)
        self.group = group
        self.info = info or {}
        self.born = born


class Op:
    """One operation instance: fn(*args) against an expected value."""

    def __init__(self, name, fn, args, expect=None, kind="tensor", tol=1e-9,
                 scale=None, check=None, keep=False, may=(), group=None,
                 info=None, mutates=False, may_raise=False):
        self.name = name
        self.fn = fn
        self.args = args
        self.expect = expect
        self.kind = kind
        self.tol = tol
        self.scale = scale
        self.check = check
        self.keep = keep
        self.may = may
        self.group = group
        self.info = info
        self.mutates = mutates
        self.may_raise = may_raise

    def call(self):
        return self.fn(*self.args)

    def call_copy(self):
        return self.fn(*copy.deepcopy(self.args))


def compare(op, result, where="", value=dense):
    """Oracle: the result of an operation against its dense expectation."""
    if op.check is not None:
        op.check(result)
    if op.expect is None:
        return np.asarray(value(result), dtype=float) if op.keep else None
    exp = np.asarray(op.expect() if callable(op.expect) else op.expect,
                     dtype=float)
    try:
        got = dense(result)
    except Violation:
        raise
    except Exception as e:
        raise Violation("malformed:" + op.name,
                        "%s: result cannot be read (%s: %s)" % (
                            op.name, type(e).__name__, e))
    got = np.asarray(got, dtype=float)
    if op.kind == "scalar":
        if got.size != 1:
            raise Violation("shape:" + op.name, "%s: expected a scalar, got "
                            "shape %s" % (op.name, got.shape))
        got = got.reshape(())
        exp = exp.reshape(())
    elif op.kind == "flat":
        got, exp = got.reshape(-1), exp.reshape(-1)
    if got.shape != exp.shape:
        raise Violation("shape:" + op.name, "%s: shape %s, expected %s" % (
            op.name, got.shape, exp.shape))
    sc = op.scale if op.scale is not None else max(
        [mag(a) for a in op.args if hasattr(a, "order")], default=0.0)
    sc = max(sc, mag(result) if not np.isscalar(result) else 0.0,
             float(np.max(np.abs(exp))) if exp.size else 0.0, 1e-300)
    if exp.size:
        if not np.all(np.isfinite(got)):
            raise Violation("value:" + op.name, "%s: non-finite result"
                            % op.name)
        err = float(np.max(np.abs(got - exp)))
        if err > op.tol * sc:
            raise Violation("value:" + op.name,
                            "%s: max error %.3e (scale %.3e, tol %.0e) %s" % (
                                op.name, err, sc, op.tol, where))
    return got


def check_tbt(t, opname):
    """What a TreeBasedTensor reports about itself must be true."""
    def bad(what, msg=""):
        raise Violation("report:%s:%s" % (what, opname),
                        "%s: reported %s is wrong %s" % (opname, what, msg))
    tree = t.tree
    adj = np.asarray(tree.adjacency_matrix)
    n = adj.shape[0]
    d2i = [int(k) for k in tree.dim2ind]
    par = [int(np.nonzero(adj[:, k])[0][0]) + 1 if adj[:, k].any() else 0
           for k in range(n)]
    roots = [k + 1 for k in range(n) if par[k] == 0]
    if len(roots) != 1 or len(t.tensors) != n:
        bad("tree", "%s roots, %d cores for %d nodes" % (
            roots, len(t.tensors), n))
    root = roots[0]
    d = len(d2i)
    if int(t.order) != d or int(t.ndim) != d:
        bad("order", "%s for %d dims" % (t.order, d))
    size = 0
    nnz = 0
    for k in range(1, n + 1):
        c = np.asarray(t.tensors[k - 1].data)
        size += c.size
        nnz += int(np.count_nonzero(c))
        act = c.size != 0
        if bool(t.is_active_node[k - 1]) != act:
            bad("activity", "node %d" % k)
        ch = [j + 1 for j in range(n) if adj[k - 1, j]]
        if act:
            if k == root and c.ndim == len(ch) and ch:
                rk = 1
            else:
                rk = c.shape[-1]
            if k == root and not ch:
                rk = int(t.ranks[k - 1])
            if int(t.ranks[k - 1]) != rk:
                bad("ranks", "node %d: %s, core says %d" % (
                    k, t.ranks[k - 1], rk))
    for dim, k in enumerate(d2i):
        c = np.asarray(t.tensors[k - 1].data)
        if c.size:
            s = c.shape[0]
        else:
            p = par[k - 1]
            ch = [j + 1 for j in range(n) if adj[p - 1, j]]
            s = np.asarray(t.tensors[p - 1].data).shape[ch.index(k)]
        if int(t.shape[dim]) != s:
            bad("shape", "dim %d: %s vs %d" % (dim, t.shape[dim], s))
    if int(t.storage()) != size:
        bad("storage", "%s vs %d" % (t.storage(), size))
    if int(t.sparse_storage()) != nnz:
        bad("sparse_storage", "%s vs %d" % (t.sparse_storage(), nnz))
    if t.is_orth:
        on = int(t.orth_node) if t.orth_node is not None else None
        if on is None:
            return
        up = []                    # nodes above the orthogonality centre
        k = on
        while k != root:
            up.append((par[k - 1], k))
            k = par[k - 1]
        edge = dict(up)
        for k in range(1, n + 1):
            c = np.asarray(t.tensors[k - 1].data)
            if k == on or c.size == 0:
                continue
            if k in edge:
                ch = [j + 1 for j in range(n) if adj[k - 1, j]]
                c = np.moveaxis(c, ch.index(edge[k]), -1)
            m = c.reshape(-1, c.shape[-1])
            e = np.max(np.abs(m.T @ m - np.eye(m.shape[1])))
            if not e < 1e-7:
                bad("orthogonality", "node %d: %.2e" % (k, e))
