"""Independent dense semantics and generators for tensors and trees."""
import numpy as np

from .core import tensap


# ---------------------------------------------------------------- trees
def parents_of(adj):
    adj = np.asarray(adj)
    n = adj.shape[0]
    par = [0] * n
    for i in range(n):
        for j in range(n):
            if adj[i, j]:
                par[j] = i + 1
    return par


def children_of(adj, nod):
    return [j + 1 for j in range(len(adj)) if adj[nod - 1][j]]


def make_tree(r, d, unary=0.0, relabel=0.3, kind=None):
    """A random rooted tree on d dimensions -> (dim2ind, adjacency)."""
    kind = kind or r.choice(["random", "random", "trivial", "linear",
                             "balanced"])
    nodes = [None]            # 1-based; nodes[k] = list of dims
    par = {}

    def new(dims, p):
        nodes.append(list(dims))
        k = len(nodes) - 1
        par[k] = p
        return k

    dims = list(range(d))
    r.shuffle(dims)
    root = new(dims, 0)
    todo = [root]
    while todo:
        k = todo.pop(0)
        ds = nodes[k]
        if len(ds) == 1:
            if r.random() < unary and k != root:
                todo.append(new(ds, k))
            elif k == root:
                todo.append(new(ds, k))
            continue
        if kind == "trivial":
            parts = [[x] for x in ds]
        elif kind == "linear":
            parts = [ds[:-1], ds[-1:]]
        elif kind == "balanced":
            h = len(ds) // 2
            parts = [ds[:h], ds[h:]]
        else:
            a = min(len(ds), r.choice([2, 2, 2, 3, 4]))
            cuts = sorted(r.sample(range(1, len(ds)), a - 1))
            parts = [ds[i:j] for i, j in zip([0] + cuts, cuts + [len(ds)])]
        for p in parts:
            todo.append(new(p, k))
    n = len(nodes) - 1
    if unary == 0.0 and d == 1:
        pass
    lab = list(range(1, n + 1))
    if r.random() < relabel:
        r.shuffle(lab)
    adj = np.zeros((n, n), dtype=int)
    for k, p in par.items():
        if p:
            adj[lab[p - 1] - 1, lab[k - 1] - 1] = 1
    dim2ind = np.zeros(d, dtype=int)
    for k in range(1, n + 1):
        if len(nodes[k]) == 1 and not any(p == k for p in par.values()):
            dim2ind[nodes[k][0]] = lab[k - 1]
    return dim2ind, adj


# ---------------------------------------------------------------- densify
def _core(t, k):
    c = t.tensors[k]
    return np.asarray(c.data)


def dense_tbt(t, absolute=False):
    """Value of a TreeBasedTensor from its cores and its tree only."""
    adj = np.asarray(t.tree.adjacency_matrix)
    d2i = np.asarray(t.tree.dim2ind)
    n = adj.shape[0]
    par = parents_of(adj)
    root = [k + 1 for k in range(n) if par[k] == 0]
    assert len(root) == 1
    root = root[0]
    leaf_dim = {int(k): i for i, k in enumerate(d2i)}

    def rec(nod):
        """(array, dims): dims then one trailing rank index."""
        c = _core(t, nod - 1)
        if absolute:
            c = np.abs(c)
        ch = children_of(adj, nod)
        if not ch:
            return c, [leaf_dim[nod]]
        # contract children into the core
        arr = c
        # labels for the axes of arr
        labels = [("c", j) for j in ch]
        extra = arr.ndim - len(ch)
        labels += [("r", i) for i in range(extra)]
        for j in ch:
            pos = labels.index(("c", j))
            if j in leaf_dim and _core(t, j - 1).size == 0:
                labels[pos] = ("d", leaf_dim[j])
                continue
            sub, dims = rec(j)
            arr = np.tensordot(arr, sub, axes=([pos], [sub.ndim - 1]))
            labels = labels[:pos] + labels[pos + 1:] + \
                [("d", x) for x in dims]
        # order: dims first (in label order), then rank axes
        dpos = [i for i, l in enumerate(labels) if l[0] == "d"]
        rpos = [i for i, l in enumerate(labels) if l[0] == "r"]
        dims = [labels[i][1] for i in dpos]
        return np.transpose(arr, dpos + rpos), dims

    arr, dims = rec(root)
    nd = len(dims)
    if not children_of(adj, root):
        # a single node: the core is the tensor, plus possibly a rank axis
        if arr.ndim > 1 and arr.shape[1] == 1:
            arr = arr.reshape(arr.shape[0])
        return arr
    order = list(np.argsort(dims)) + list(range(nd, arr.ndim))
    return np.transpose(arr, order)


def dense(x, absolute=False):
    if isinstance(x, tensap.TreeBasedTensor):
        return dense_tbt(x, absolute)
    if isinstance(x, tensap.DimensionTree):
        from .dops import encode
        return encode(x)
    if isinstance(x, tensap.MultiIndices):
        return np.array(x.array, dtype=float)
    if isinstance(x, tensap.FullTensor):
        a = np.asarray(x.data)
        return np.abs(a) if absolute else np.array(a)
    if isinstance(x, tensap.DiagonalTensor):
        d = np.asarray(x.data)
        out = np.zeros([d.size] * int(x.order))
        for i in range(d.size):
            out[(i,) * int(x.order)] = abs(d[i]) if absolute else d[i]
        return out
    if isinstance(x, tensap.CanonicalTensor):
        core = np.asarray(x.core.data, dtype=float)
        space = [np.asarray(s) for s in x.space]
        if absolute:
            core, space = np.abs(core), [np.abs(s) for s in space]
        out = 0
        if isinstance(x.core, tensap.DiagonalTensor):
            for k in range(core.size):
                term = core[k]
                for s in space:
                    term = np.multiply.outer(term, s[:, k])
                out = out + term
            return np.asarray(out)
        arr = core
        for i, s in enumerate(space):
            arr = np.moveaxis(np.tensordot(s, arr, axes=([1], [i])), 0, i)
        return arr
    if isinstance(x, tensap.SparseTensor):
        shape = [int(s) for s in np.atleast_1d(x.shape)]
        out = np.zeros(shape)
        idx = np.asarray(x.indices.array).reshape(-1, len(shape))
        data = np.atleast_1d(x.data)
        for i, v in zip(idx, data):
            out[tuple(int(k) for k in i)] += abs(v) if absolute else v
        return out
    if hasattr(x, "toarray"):
        a = x.toarray()
        return np.abs(a) if absolute else a
    a = np.asarray(x, dtype=float)
    return np.abs(a) if absolute else a


def mag(x):
    """Backward-stable magnitude: value with absolute cores."""
    try:
        a = dense(x, absolute=True)
        return float(np.max(a)) if a.size else 0.0
    except Exception:
        return 0.0


# ---------------------------------------------------------------- building
def g(r, shape, kind="gauss"):
    shape = tuple(int(s) for s in shape)
    n = int(np.prod(shape)) if shape else 1
    if kind == "gauss":
        v = [r.gauss(0, 1) for _ in range(n)]
    elif kind == "int":
        v = [float(r.randint(-2, 2)) for _ in range(n)]
    elif kind == "sparse":
        v = [r.gauss(0, 1) if r.random() < 0.4 else 0.0 for _ in range(n)]
    else:
        v = [0.0] * n
    return np.array(v).reshape(shape)


def make_tbt(r, dim2ind, adj, shape, root_rank=1, inactive=0.0, maxrank=3,
             kind="gauss", deficient=0.0):
    n = len(adj)
    par = parents_of(adj)
    leaf = {int(k): i for i, k in enumerate(dim2ind)}
    active = [True] * n
    for k in leaf:
        if par[k - 1] and r.random() < inactive:
            active[k - 1] = False
    ranks = [r.randint(1, maxrank) for _ in range(n)]
    for k in range(n):
        if par[k] == 0:
            ranks[k] = root_rank
    cores = []
    for k in range(1, n + 1):
        ch = children_of(adj, k)
        if not ch:
            if not active[k - 1]:
                cores.append(np.array([]))
                continue
            c = g(r, [shape[leaf[k]], ranks[k - 1]], kind)
        else:
            s = [ranks[j - 1] if active[j - 1] else shape[leaf[j]] for j in ch]
            if par[k - 1] != 0 or root_rank > 1:
                s.append(ranks[k - 1])
            c = g(r, s, kind)
        if deficient and par[k - 1] and c.shape[-1] > 1 and \
                r.random() < deficient:
            c[..., -1] = c[..., 0] * (0.0 if r.random() < 0.3 else 1.0)
        cores.append(c)
    return cores


def build_tbt(cores, dim2ind, adj):
    tree = tensap.DimensionTree(dim2ind, adj)
    return tensap.TreeBasedTensor(
        [tensap.FullTensor(c) for c in cores], tree)
