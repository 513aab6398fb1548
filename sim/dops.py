"""Operations on dimension trees against a model of rooted labelled trees.

A model is encoded as [n, d, parent of node 1..n (0: none), node of dim 0..d-1].
"""
import contextlib
import random as pyrandom

import numpy as np

from .core import Violation, tensap, RANDOM
from .dense import make_tree, parents_of
from .opbase import Entry, Op

DT = tensap.DimensionTree
MAXN, MAXD = 24, 10


class Tree:
    def __init__(self, par, d2i):
        self.par = dict(par)           # node -> parent (0 for the root)
        self.d2i = list(d2i)
        self.n = len(self.par)
        self.ch = {k: sorted(j for j in self.par if self.par[j] == k)
                   for k in self.par}

    def root(self):
        return [k for k in self.par if self.par[k] == 0][0]

    def anc(self, k):
        out = []
        while self.par[k]:
            k = self.par[k]
            out.append(k)
        return out

    def desc(self, k):
        out = []
        for j in self.ch[k]:
            out += [j] + self.desc(j)
        return out

    def dims(self, k):
        if not self.ch[k]:
            return [self.d2i.index(k)]
        return [x for j in self.ch[k] for x in self.dims(j)]

    def level(self, k):
        return len(self.anc(k))

    def key(self):
        """Equality of dimension trees: the same dimension sets per level."""
        return sorted((self.level(k), sorted(self.dims(k))) for k in self.par)

    def encode(self):
        return np.array([self.n, len(self.d2i)] + [
            self.par[k] for k in range(1, self.n + 1)] + self.d2i, dtype=float)


def decode(v):
    v = [int(x) for x in v]
    n, d = v[0], v[1]
    return Tree({k + 1: v[2 + k] for k in range(n)}, v[2 + n:2 + n + d])


def truth(name, t):
    """The tree is valid and everything it says about itself is true."""
    def bad(what, *info):
        raise Violation("invalid:%s:%s" % (what, name), "%s: %s %s" % (
            name, what, " ".join(str(i) for i in info)))
    adj = np.asarray(t.adjacency_matrix)
    if adj.ndim != 2 or adj.shape[0] != adj.shape[1]:
        bad("adjacency", adj.shape)
    if not np.all((adj == 0) | (adj == 1)):
        bad("adjacency", "entries")
    n = adj.shape[0]
    if np.any(adj.sum(0) > 1):
        bad("parents", "a node has several parents")
    par = {k + 1: p for k, p in enumerate(parents_of(adj))}
    roots = [k for k in par if par[k] == 0]
    if len(roots) != 1:
        bad("root", roots)
    d2i = [int(k) for k in np.asarray(t.dim2ind).reshape(-1)]
    m = Tree(par, d2i)
    seen = [roots[0]] + m.desc(roots[0])
    if len(seen) != n or len(set(seen)) != n:
        bad("connected", seen)
    leaves = sorted(k for k in par if not m.ch[k])
    if sorted(d2i) != leaves:
        bad("leaves", d2i, leaves)

    def ints(x):
        return [int(k) for k in np.asarray(x).reshape(-1)]
    if int(t.nb_nodes) != n or ints(t.nodes_indices) != list(range(1, n + 1)):
        bad("nb_nodes", t.nb_nodes, n)
    if int(t.root) != m.root():
        bad("root", t.root, m.root())
    if int(t.arity) != max(len(c) for c in m.ch.values()):
        bad("arity", t.arity)
    leaf = [not m.ch[k] for k in range(1, n + 1)]
    if [bool(b) for b in t.is_leaf] != leaf:
        bad("is_leaf", t.is_leaf)
    if sorted(ints(t.internal_nodes)) != [k for k in par if m.ch[k]]:
        bad("internal_nodes", t.internal_nodes)
    pl = sorted({par[k] for k in d2i})
    if sorted(ints(t.nodes_parent_of_leaves)) != pl:
        bad("nodes_parent_of_leaves", t.nodes_parent_of_leaves)
    if len(t.dims) != n:
        bad("dims", len(t.dims))
    for k in range(1, n + 1):
        if int(t.parent(k)) != par[k]:
            bad("parent", k, t.parent(k))
        ch = ints(t.children(k))
        if sorted(ch) != m.ch[k]:
            bad("children", k, ch)
        if par[k]:
            sib = ints(t.children(par[k]))
            cn = int(t.child_number(k))
            if not 1 <= cn <= len(sib) or sib[cn - 1] != k:
                bad("child_number", k, cn)
            sb = [x for x in ints(np.asarray(t.sibling)[:, k - 1]) if x]
            if sorted(sb) != m.ch[par[k]] and sorted(sb) != [
                    x for x in m.ch[par[k]] if x != k]:
                bad("sibling", k, sb)
        if int(t.level[k - 1]) != m.level(k):
            bad("level", k, t.level[k - 1])
        if ints(t.ascendants(k)) != m.anc(k):
            bad("ascendants", k, t.ascendants(k))
        if sorted(ints(t.descendants(k))) != sorted(m.desc(k)):
            bad("descendants", k, t.descendants(k))
        if sorted(ints(t.dims[k - 1])) != sorted(m.dims(k)):
            bad("dims", k, t.dims[k - 1])
    for l in {m.level(k) for k in par} | {n}:
        if sorted(ints(t.nodes_with_level(l))) != [
                k for k in par if m.level(k) == l]:
            bad("nodes_with_level", l)
    if t != t or not t == t:
        bad("equality", "with itself")
    return m


def encode(t):
    adj = np.asarray(t.adjacency_matrix)
    par = {k + 1: p for k, p in enumerate(parents_of(adj))}
    return Tree(par, [int(k) for k in t.dim2ind]).encode()


def value(x):
    return encode(x)


def _op(name, fn, args, expect, extra=None):
    """An operation returning a tree; expect() is its model or None."""
    def chk(res):
        m = truth(name, res)
        if expect is not None:
            e = expect()
            if not np.array_equal(m.encode(), e.encode()):
                raise Violation("value:" + name, "%s: got parents %s dims %s, "
                                "expected %s %s" % (
                                    name, m.par, m.d2i, e.par, e.d2i))
        if extra is not None:
            extra(m)
    return Op(name, fn, args, None, check=chk, keep=True)


@contextlib.contextmanager
def adversary(seed):
    """Some draws become extreme legal values."""
    if seed is None:
        yield
        return
    RANDOM.adv, RANDOM.p = pyrandom.Random(seed), 0.4
    try:
        yield
    finally:
        RANDOM.adv = None


def make(name, r, pool):
    if name in ("trivial", "linear", "balanced"):
        d = r.choice([1, 2, 2, 3, 4, 5, 6, 8])
        order = None
        if name != "trivial" and d > 1 and r.random() < 0.4:
            order = list(range(1, d + 1))
            r.shuffle(order)
            if r.random() < 0.5:
                order = np.array(order)
        dims = [k - 1 for k in order] if order is not None else list(range(d))

        def extra(m):
            if len(m.d2i) != d:
                raise Violation("value:" + name, "wrong number of dimensions")
            sets = sorted([sorted(m.dims(k)) for k in m.par if m.ch[k]],
                          key=len)
            lv = [m.level(k) for k in m.d2i]
            if name == "trivial":
                ok = set(lv) == {1}
            elif d == 1:
                ok = True
            elif name == "linear":
                ok = sets == [sorted(dims[:k]) for k in range(2, d + 1)]
            else:
                ok = max(lv) - min(lv) <= 1 and all(
                    len(c) in (0, 2) for c in m.ch.values())
            if not ok:
                raise Violation("value:" + name, "not a %s tree" % name)
        return _op(name, getattr(DT, name), [order if order is not None else d],
                   None, extra)
    if name == "random":
        d = r.randint(1, 9)
        lo = r.choice([2, 2, 2, 3])
        hi = lo + r.choice([0, 1, 2])
        arity = lo if hi == lo and r.random() < 0.7 else r.choice(
            [[lo, hi], np.array([lo, hi])])
        adv = r.randrange(1 << 30) if r.random() < 0.5 else None

        def f(order, ar, a):
            with adversary(a):
                if np.ndim(ar) == 0 and ar == 2:
                    return DT.random(order)
                return DT.random(order, ar)

        def extra(m):
            if len(m.d2i) != d:
                raise Violation("value:random", "wrong number of dimensions")
            for k, c in m.ch.items():
                if c and not min(lo, len(m.dims(k))) <= len(c) <= hi:
                    raise Violation("arity:random", "node %d has %d children, "
                                    "asked for %s" % (k, len(c), (lo, hi)))
        return _op(name, f, [d, arity, adv], None, extra)
    if name == "build":
        d2i, adj = make_tree(r, r.randint(1, 7), r.choice([0.0, 0.0, 0.4]))
        par = {k + 1: p for k, p in enumerate(parents_of(adj))}
        m = Tree(par, [int(k) for k in d2i])
        args = [d2i, adj]
        if r.random() < 0.3:
            args = [d2i.tolist(), adj.tolist()]
        return _op(name, lambda a, b: DT(a, b), args, lambda: m)
    if not pool:
        return None
    e = pool[r.randrange(len(pool))]
    t, m = e.obj, decode(e.model)
    d, n = len(m.d2i), m.n
    if name in ("permute", "ipermute"):
        p = list(range(d))
        r.shuffle(p)
        arg = p if r.random() < 0.5 else np.array(p)
        new = list(m.d2i)
        for i in range(d):
            if name == "permute":
                new[p[i]] = m.d2i[i]
            else:
                new[i] = m.d2i[p[i]]
        return _op(name, (lambda x, y: x.permute(y)) if name == "permute" else
                   (lambda x, y: x.ipermute(y)), [t, arg],
                   lambda: Tree(m.par, new))
    if name == "roundtrip":
        p = list(range(d))
        r.shuffle(p)
        return _op(name, (lambda x, y: x.permute(y).ipermute(y)), [t, p],
                   lambda: m)
    if name == "add_child":
        if n >= MAXN or d >= MAXD:
            return None
        k = r.randint(1, n)

        def exp():
            par = dict(m.par)
            par[n + 1] = k
            d2i = list(m.d2i)
            if m.ch[k]:
                d2i.append(n + 1)
            else:
                d2i[d2i.index(k)] = n + 1
            return Tree(par, d2i)
        return _op(name, lambda x, y: x.add_child(y), [t, k], exp)
    if name == "change_root":
        k = r.randint(1, n)
        root = m.root()
        if n >= MAXN or (len(m.ch[root]) < 2 and k != root):
            return None                # the old root would become a leaf
        if k == root:
            return _op(name, lambda x, y: x.change_root(y)[0], [t, k],
                       lambda: m)

        def exp():
            par = dict(m.par)
            path = [k] + m.anc(k)
            par[k] = 0
            for a, b in zip(path, path[1:]):
                par[b] = a
            d2i = list(m.d2i)
            if not m.ch[k]:
                par[n + 1] = k
                d2i[d2i.index(k)] = n + 1
            return Tree(par, d2i)

        def f(x, y):
            new, mod = x.change_root(y)
            after = exp()
            mod = set(int(i) for i in np.asarray(mod).reshape(-1))
            for i in m.par:
                if set(m.ch[i]) | {m.par[i]} != set(after.ch[i]) | {
                        after.par[i]} and i not in mod and m.ch[i]:
                    raise Violation("value:change_root", "node %d changed and "
                                    "is not among the modified nodes" % i)
            return new
        return _op(name, f, [t, k], exp)
    if name == "sub_tree":
        k = r.randint(1, n)

        def f(x, y):
            new, nod = x.sub_dimension_tree(y)
            nod = [int(i) for i in nod]
            if sorted(nod) != sorted([k] + m.desc(k)):
                raise Violation("value:sub_tree", "nodes %s" % nod)
            got = decode(encode(new))
            dims = [int(i) for i in x.dims[y - 1]]
            for i, a in enumerate(nod):
                p = 0 if a == k else nod.index(m.par[a]) + 1
                if got.par[i + 1] != p:
                    raise Violation("value:sub_tree", "parents differ")
            for i, dim in enumerate(dims):
                if got.d2i[i] != nod.index(m.d2i[dim]) + 1:
                    raise Violation("value:sub_tree", "dimensions differ")
            return new
        return _op(name, f, [t, k], None)
    if name in ("eq", "eq_new"):
        if name == "eq":
            o = pool[r.randrange(len(pool))]
            other, mo = o.obj, decode(o.model)
        else:                          # a near miss: same sizes, one change
            par, d2i = dict(m.par), list(m.d2i)
            w = r.randrange(3)
            if w == 0:                 # relabel: equal
                lab = list(range(1, n + 1))
                r.shuffle(lab)
                par = {lab[k - 1]: lab[p - 1] if p else 0
                       for k, p in m.par.items()}
                d2i = [lab[k - 1] for k in m.d2i]
            elif w == 1:               # swap two dimensions
                if d < 2:
                    return None
                i, j = r.sample(range(d), 2)
                d2i[i], d2i[j] = d2i[j], d2i[i]
            else:                      # move a subtree
                c = [k for k in par if par[k] and len(m.ch[par[k]]) > 2]
                if not c:
                    c = [k for k in par if par[k] and len(m.ch[par[k]]) > 1]
                if not c:
                    return None
                k = r.choice(c)
                bad = {k} | set(m.desc(k))
                q = [j for j in par if j not in bad and m.ch[j]]
                if not q:
                    return None
                par[k] = r.choice(q)
            mo = Tree(par, d2i)
            adj = np.zeros((n, n), dtype=int)
            for k, p in par.items():
                if p:
                    adj[p - 1, k - 1] = 1
            other = DT(d2i, adj)
        eq = m.key() == mo.key()

        def chk(res):
            if bool(res[0]) != eq or bool(res[1]) == eq or \
                    bool(res[2]) != eq:
                raise Violation("value:eq", "compared %s, %s (== != and "
                                "swapped), truth %s" % (
                                    bool(res[0]), bool(res[1]), eq))
        return Op(name, lambda x, y: (x == y, x != y, y == x), [t, other],
                  None, check=chk)
    if name == "query":
        k = r.randint(1, n)
        ds = m.dims(k)
        if r.random() < 0.5:
            r.shuffle(ds)
        if r.random() < 0.2:
            ds = r.sample(range(d), r.randint(1, d))

        def chk(res):
            want = [k for k in m.par if sorted(m.dims(k)) == sorted(ds)]
            if sorted(int(i) for i in res) != want:
                raise Violation("value:node_with_dims", "%s: %s, truth %s" % (
                    ds, res, want))
            truth("query", t)
        return Op(name, lambda x, y: x.node_with_dims(y), [t, ds], None,
                  check=chk)
    if name == "reprs":
        def chk(res):
            truth("reprs", t)
            pos = res[1]
            if sorted(pos) != list(range(n)) or not np.all(
                    np.isfinite(list(pos.values()))):
                raise Violation("value:layout", "positions of %s" % sorted(pos))
        return Op(name, lambda x: (repr(x), x.tree_layout()), [t], None,
                  check=chk)
    if name == "update_dims":
        return _op(name, lambda x: x.update_dims_from_leaves(), [t],
                   lambda: m)
    return None


OPS = ["trivial", "linear", "balanced", "random", "random", "build", "permute",
       "ipermute", "roundtrip", "add_child", "add_child", "change_root",
       "change_root", "sub_tree", "eq", "eq_new", "query", "reprs"]


def start(r, cfg):
    pool = []
    for _ in range(r.randint(1, 3)):
        d2i, adj = make_tree(r, r.randint(1, 6), r.choice([0.0, 0.0, 0.4]))
        t = DT(d2i, adj)
        pool.append(Entry(t, encode(t)))
    return pool


def keep(r, op, res, got):
    v = encode(res)
    return Entry(res, v)
