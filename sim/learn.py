"""Worlds for tensor learning: data, bases, solvers and their own truth."""
import numpy as np

from .core import Violation, tensap
from .dense import (g, make_tree, make_tbt, build_tbt, dense, parents_of,
                    children_of)


class CallbackError(Exception):
    pass


class Basis(tensap.PolynomialFunctionalBasis):
    """Polynomials whose evaluation can be made to fail."""
    countdown = [0]
    count = 0

    def eval(self, x):
        Basis.count += 1
        if Basis.countdown[0] > 0:
            Basis.countdown[0] -= 1
            if Basis.countdown[0] == 0:
                raise CallbackError("the basis failed")
        return super().eval(x)


def khatri(H, arr):
    """Values at the rows of H of the functions with coefficients arr.

    arr has one axis per element of H, then any number of others."""
    out = np.tensordot(H[0], arr, axes=([1], [0]))
    for h in H[1:]:
        out = np.einsum("ni,ni...->n...", h, out)
    return out


def data(r, u, fmt):
    """New samples and values into u."""
    d = u["d"]
    n = max(4, int(r.choice([0.8, 1.5, 2.5, 4]) * sum(u["shape"])))
    m = r.randint(3, 8)
    rank = r.choice([1, 1, 2, 2, 3])
    out = u["out"]
    c = 0
    for _ in range(rank):
        t = g(r, [out])
        for k in u["shape"][::-1]:
            t = np.multiply.outer(g(r, [k]), t)
        c = c + t * 0.5 ** _
    c = c * 10.0 ** r.choice([0, 0, 0, -2, 2])
    u["bases_eval"] = u["bases_eval_test"] = None
    if u["bases"] is not None:
        lo, hi = u["support"]
        x = np.array([[r.uniform(lo, hi) for _ in range(d)]
                      for _ in range(n)])
        xt = np.array([[r.uniform(lo, hi) for _ in range(d)]
                       for _ in range(m)])
        H, Ht = u["bases"].eval(x), u["bases"].eval(xt)
        u["x"], u["xt"] = x, xt
        if u["given_eval"]:
            u["bases_eval"] = [h.copy() for h in H]
            if r.random() < 0.5:
                u["bases_eval_test"] = [h.copy() for h in Ht]
            if r.random() < 0.5:
                u["x"] = None
    else:
        if u["onehot"]:
            H, Ht = [], []
            for k in u["shape"]:
                H.append(np.eye(k)[[r.randrange(k) for _ in range(n)]])
                Ht.append(np.eye(k)[[r.randrange(k) for _ in range(m)]])
        else:
            H = [g(r, [n, k]) for k in u["shape"]]
            Ht = [g(r, [m, k]) for k in u["shape"]]
        u["bases_eval"] = [h.copy() for h in H]
        u["bases_eval_test"] = [h.copy() for h in Ht]
        u["x"] = u["xt"] = None
    u["H"], u["Ht"] = H, Ht
    u["N"] = n
    if u["loss"] == "density":
        u["y"] = u["yt"] = None
        return
    y, yt = khatri(H, c), khatri(Ht, c)
    s = float(np.sqrt(np.mean(y ** 2))) + 1e-300
    noise = r.choice([0.0, 0.0, 0.05, 0.5])
    y = y + noise * s * g(r, y.shape) + r.choice([0.0, 0.0, 3.0]) * s
    yt = yt + noise * s * g(r, yt.shape)
    if not u["vector"]:
        y, yt = y[:, 0], yt[:, 0]
    u["y"], u["yt"] = y, yt


def world(r, fmt=None, density=0.0):
    """Everything that stays for the life of the solvers of a case."""
    u = {"fmt": fmt or r.choice(["canonical", "tree", "tree", "tree"])}
    u["loss"] = "density" if u["fmt"] == "tree" and density and \
        r.random() < density else "square"
    d = u["d"] = r.choice([2, 2, 3, 3, 4]) if u["fmt"] == "canonical" else \
        r.choice([2, 3, 3, 4, 4, 5])
    u["shape"] = [r.choice([1, 2, 2, 3, 3, 4]) for _ in range(d)]
    if d > 4:
        u["shape"] = [min(k, 3) for k in u["shape"]]
    u["out"] = 1
    u["vector"] = False
    if u["fmt"] == "tree" and u["loss"] == "square" and \
            r.random() < 0.15:
        u["out"] = r.choice([2, 3])
        u["vector"] = True
    u["bases"] = None
    u["given_eval"] = r.random() < 0.3
    u["onehot"] = r.random() < 0.4
    if u["loss"] == "density":
        u["given_eval"] = False
    if u["loss"] == "density" or r.random() < 0.65:
        u["support"] = r.choice([(-1, 1), (0, 1), (-2, 3)])
        X = tensap.UniformRandomVariable(*u["support"])
        polys = X.orthonormal_polynomials()
        bs = [Basis(polys, range(k)) for k in u["shape"]]
        u["bases"] = tensap.FunctionalBases(bs)
    if u["fmt"] == "tree":
        d2i, adj = make_tree(r, d, relabel=0.5)
        u["tree"] = tensap.DimensionTree(d2i, adj)
        act = [True] * len(adj)
        p = r.choice([0.0, 0.0, 0.3, 1.0])
        for k in d2i:
            if r.random() < p:
                act[int(k) - 1] = False
        if u["vector"] and sum(act) == 1:
            act = [True] * len(adj)
        u["active"] = act
    return u


def settings(r, u):
    """New settings of a fit into u."""
    tree = u["fmt"] == "tree"
    lm = u["lm"] = {}
    lm["adapt"] = r.random() < 0.2
    lm["reg"] = r.random() < 0.12
    lm["reg_type"] = r.choice(["l1", "l0"])
    if lm["reg"]:
        lm["adapt"] = False
    lm["est"] = r.random() < 0.6
    lm["type"] = r.choice(["leave_out", "leave_out", "k_fold"])
    lm["correction"] = r.random() < 0.4
    lm["solver"] = r.choice(["qr", "qr", "solve"])
    u["path"] = None
    if u["bases"] is None and lm["adapt"]:
        paths = np.empty(u["d"], dtype=object)
        for i, k in enumerate(u["shape"]):
            paths[i] = np.triu(np.full((k, k), True))
        u["path"] = paths
    u["test"] = r.random() < 0.7
    u["store"] = r.random() < 0.8
    u["select"] = r.choice([None, None, "test_error", "cv_error"])
    u["est"] = r.random() < 0.3
    u["sweeps"] = r.choice([1, 2, 3, 4])
    u["stag"] = r.choice([1e-6, 1e-12, 0.0])
    u["random"] = r.random() < 0.35
    u["tol_error"] = r.choice([1e-6, 1e-12, 1e-2])
    u["adaptation"] = r.choice([None, None, None, "standard", "standard"])
    u["iters"] = r.choice([1, 2, 3, 4])
    u["early"] = r.random() < 0.3
    u["early_factor"] = r.choice([10, 1.0, 0.5])
    u["algorithm"] = "standard"
    u["tree_adapt"] = False
    u["guess"] = None
    if tree:
        u["rank_one"] = r.random() < 0.7
        u["theta"] = r.choice([0.8, 0.3, 1.0])
        if u["adaptation"]:
            u["tree_adapt"] = r.random() < 0.35
            if r.random() < 0.35:
                u["adaptation"] = r.choice(["dmrg", "dmrg_low_rank"])
                u["post"] = r.random() < 0.25
                u["max_rank"] = r.choice([1, 2, 3, 100])
                u["tree_adapt"] = False
            u["force"] = r.random() < 0.7
            u["tree_tol"] = r.choice([None, 1e-8, 0.1])
        init = r.choice(["canonical", "canonical", "random", "random", "ones",
                         "initial_guess", "initial_guess", "mean",
                         "mean_randomized"])
        rank = r.choice([1, 1, 2, 2, 3])
        if u["adaptation"] == "standard" and r.random() < 0.7:
            rank = 1
        if init in ("mean", "mean_randomized"):
            rank = 1
            if u["vector"]:
                init = "random"
        u["rank"] = rank
        full = admissible_ranks(r, u)
        if rank > 1 and r.random() < 0.4:
            u["rank"] = full
        if init == "initial_guess":
            u["guess"] = guess_tbt(r, u, full if r.random() < 0.6 else None)
            if r.random() < 0.5:
                u["rank"] = np.array(u["guess"].ranks)
        u["limit"] = u["rank"] if u["adaptation"] is None else \
            u["max_rank"] if u["adaptation"] != "standard" and \
            sum(u["active"]) > 1 and not u["vector"] else None
    else:
        u["inner"] = r.choice([1, 2])
        u["one"] = r.random() < 0.25
        if r.random() < 0.12 and not u["adaptation"]:
            u["algorithm"] = "greedy"
        init = r.choice(["mean", "mean", "mean", "random", "random", "ones",
                         "mean_randomized", "greedy", "initial_guess"])
        u["rank"] = r.choice([1, 1, 2, 2, 3])
        if init == "initial_guess":
            k = u["rank"] if r.random() < 0.7 else 1
            u["guess"] = tensap.CanonicalTensor(
                [g(r, [n, k]) for n in u["shape"]], g(r, [k]))
        u["trunc"] = r.random() < 0.7
    if u["loss"] == "density":
        lm["reg"] = False
        lm["type"] = "leave_out"
        if u["adaptation"]:
            u["adaptation"] = "standard"
        if init not in ("random", "ones", "initial_guess"):
            init = r.choice(["random", "ones"])
            u["guess"] = None
        u["limit"] = u["rank"] if u["adaptation"] is None else None
        if not all(u["active"]):
            u["rank_one"] = False      # raises for inactive leaves
    u["init"] = init
    u["list"] = r.random() < 0.15 and not tree


def admissible_ranks(r, u):
    t = u["tree"]
    adj = t.adjacency_matrix
    n = len(adj)
    par = parents_of(adj)
    leaf = {int(k): i for i, k in enumerate(t.dim2ind)}
    rank = [r.choice([1, 2, 2, 3]) if u["active"][k] else 0
            for k in range(n)]
    for k in range(n):
        if par[k] == 0:
            rank[k] = u["out"]

    def dim(j):
        return rank[j - 1] if u["active"][j - 1] else u["shape"][leaf[j]]

    changed = True
    while changed:
        changed = False
        for k in range(1, n + 1):
            if not u["active"][k - 1]:
                continue
            ch = children_of(adj, k)
            sizes = [u["shape"][leaf[k]]] if not ch else [dim(j) for j in ch]
            if par[k - 1]:
                top = int(np.prod(sizes))
                if rank[k - 1] > top:
                    rank[k - 1], changed = top, True
            for j in ch:
                if u["active"][j - 1]:
                    o = int(np.prod([dim(i) for i in ch if i != j])) * \
                        rank[k - 1]
                    if rank[j - 1] > o:
                        rank[j - 1], changed = o, True
    return np.array(rank)


def guess_tbt(r, u, ranks):
    t = u["tree"]
    adj = t.adjacency_matrix
    n = len(adj)
    par = parents_of(adj)
    leaf = {int(k): i for i, k in enumerate(t.dim2ind)}
    if ranks is None:
        ranks = [1 if u["active"][k] else 0 for k in range(n)]
        for k in range(n):
            if par[k] == 0:
                ranks[k] = u["out"]
    cores = []
    for k in range(1, n + 1):
        ch = children_of(adj, k)
        if not ch:
            if not u["active"][k - 1]:
                cores.append(np.array([]))
                continue
            cores.append(g(r, [u["shape"][leaf[k]], ranks[k - 1]]))
        else:
            s = [ranks[j - 1] if u["active"][j - 1] else u["shape"][leaf[j]]
                 for j in ch]
            if par[k - 1] != 0 or u["out"] > 1:
                s.append(ranks[k - 1])
            cores.append(g(r, s))
    return build_tbt(cores, np.array(t.dim2ind), np.array(adj))


def make_solver(u):
    if u["fmt"] == "tree":
        loss = tensap.DensityL2LossFunction() if u["loss"] == "density" \
            else tensap.SquareLossFunction()
        return tensap.TreeBasedTensorLearning(u["tree"], u["active"], loss)
    return tensap.CanonicalTensorLearning(u["d"],
                                          tensap.SquareLossFunction())


def apply(s, u):
    """Give the data and settings of u to the solver s, as a user does."""
    s.display = False
    s.bases = u["bases"]
    s.bases_eval = u["bases_eval"]
    s.bases_eval_test = u["bases_eval_test"]
    s.training_data = [u["x"], u["y"]]
    s.test_data = [u["xt"], u["yt"]]
    if u["loss"] == "density":
        s.training_data, s.test_data = u["x"], u["xt"]
    s.output_dimension = u["out"]
    s.test_error = u["test"]
    s.store_iterates = u["store"]
    s.model_selection = u["select"] is not None
    s.model_selection_options["type"] = u["select"] or "test_error"
    s.error_estimation = u["est"]
    s.rank = u["rank"]
    s.initialization_type = u["init"]
    s.initial_guess = u["guess"]
    s.algorithm = u["algorithm"]
    s.bases_adaptation_path = u["path"]
    a = s.alternating_minimization_parameters
    a["max_iterations"] = u["sweeps"]
    a["stagnation"] = u["stag"]
    a["random"] = u["random"]
    s.tolerance["on_error"] = u["tol_error"]
    s.tolerance["on_stagnation"] = 1e-9
    s.rank_adaptation = u["adaptation"] is not None
    o = s.rank_adaptation_options
    o.pop("type", None)
    o["max_iterations"] = u["iters"]
    o["early_stopping"] = u["early"]
    o["early_stopping_factor"] = u["early_factor"]
    s.tree_adaptation = u["tree_adapt"]
    if u["fmt"] == "tree":
        s.tree = u["tree"]
        s.is_active_node = list(u["active"])
        o["rank_one_correction"] = u["rank_one"]
        o["theta"] = u["theta"]
        if u["adaptation"] and u["adaptation"] != "standard":
            o["type"] = u["adaptation"]
            o["max_rank"] = u["max_rank"]
            o["post_alternating_minimization"] = u["post"]
        if u["tree_adapt"]:
            s.tree_adaptation_options["force_rank_adaptation"] = u["force"]
            s.tree_adaptation_options["tolerance"] = u["tree_tol"]
            s.tree_adaptation_options["max_iterations"] = 5
    else:
        a["one_by_one_factor"] = u["one"]
        a["inner_loops"] = u["inner"]
        s.truncate_initialization = u["trunc"]
    lm = u["lm"]
    if u["loss"] == "density":
        m = tensap.LinearModelLearningDensityL2()
        m.basis_adaptation = lm["adapt"]
        m.error_estimation = lm["est"]
        m.error_estimation_type = lm["type"]
        s.linear_model_learning = u["model"] = m
        return
    m = tensap.LinearModelLearningSquareLoss()
    m.basis_adaptation = lm["adapt"]
    m.regularization = lm["reg"]
    m.regularization_type = lm["reg_type"]
    m.error_estimation = lm["est"]
    m.error_estimation_type = lm["type"]
    m.error_estimation_options["correction"] = lm["correction"]
    m.linear_solver = lm["solver"]
    s.linear_model_learning = m
    u["model"] = m


# ------------------------------------------------------------------- truth
def coefficients(f, u):
    """Dense coefficients (with a last axis of outputs) of a result."""
    t = f.tensor
    if isinstance(t, tensap.TreeBasedTensor):
        valid(t, u)
    c = np.asarray(dense(t), float)
    want = tuple(u["shape"])
    if c.shape == want:
        c = c[..., None]
    if c.shape != want + (u["out"],):
        raise Violation("shape", "the model has coefficients of shape %s, the "
                        "bases and outputs are %s" % (
                            c.shape, want + (u["out"],)))
    return c


def valid(t, u):
    """Valid tree on the same dimensions, consistent and admissible ranks."""
    adj = np.asarray(t.tree.adjacency_matrix)
    n = len(adj)
    par = parents_of(adj)
    roots = [k for k in range(n) if par[k] == 0]
    if len(roots) != 1 or np.any(adj.sum(0) > 1):
        raise Violation("tree", "not a rooted tree: %s" % adj.tolist())
    d2i = [int(k) for k in t.tree.dim2ind]
    leaves = sorted(k + 1 for k in range(n) if not adj[k].any())
    if sorted(d2i) != leaves or len(d2i) != u["d"]:
        raise Violation("tree", "leaves %s, dimensions %s" % (leaves, d2i))
    leaf = {k: i for i, k in enumerate(d2i)}
    rank = [0] * n
    active = [np.asarray(c.data).size > 0 for c in t.tensors]

    def axis(j):
        """Size of the axis of the parent for child j."""
        return rank[j - 1] if active[j - 1] else u["shape"][leaf[j]]

    order = []
    todo = [roots[0] + 1]
    while todo:
        k = todo.pop()
        order.append(k)
        todo += children_of(adj, k)
    if len(order) != n:
        raise Violation("tree", "nodes out of reach of the root")
    for k in order[::-1]:
        if not active[k - 1]:
            if k not in leaf:
                raise Violation("tree", "internal node %d without core" % k)
            continue
        c = np.asarray(t.tensors[k - 1].data)
        ch = children_of(adj, k)
        sizes = [axis(j) for j in ch] if ch else [u["shape"][leaf[k]]]
        extra = c.shape[len(sizes):]
        if list(c.shape[:len(sizes)]) != sizes or len(extra) > 1:
            raise Violation("core", "core %d of shape %s below sizes %s" % (
                k, c.shape, sizes))
        rank[k - 1] = int(extra[0]) if extra else 1
        if k - 1 != roots[0] and not extra:
            raise Violation("core", "core %d without rank" % k)
    got = [int(v) for v in np.ravel(t.ranks)]
    if got != rank:
        raise Violation("ranks", "ranks %s reported, the cores have %s" % (
            got, rank))
    if [bool(a) for a in t.is_active_node] != active:
        raise Violation("active", "active nodes %s, cores at %s" % (
            list(t.is_active_node), active))
    for k in range(1, n + 1):
        top = u["limit"]
        if top is None or par[k - 1] == 0 or not active[k - 1]:
            continue
        top = top if np.ndim(top) == 0 else top[k - 1]
        if rank[k - 1] > top:
            raise Violation("limit", "node %d has rank %d, at most %d was "
                            "requested" % (k, rank[k - 1], top))


def residual(c, H, y):
    p = khatri(H, c)
    return p - np.reshape(y, p.shape)


def rel_error(c, H, y):
    e = residual(c, H, y)
    return float(np.sqrt(np.sum(e ** 2) / np.sum(np.asarray(y) ** 2)))


def test_error(c, u):
    """Test error of the model with coefficients c."""
    if u["loss"] == "density":
        return float(np.sum(c ** 2) - 2 * np.mean(khatri(u["Ht"], c)))
    return rel_error(c, u["Ht"], u["yt"])


def magnitude(f, H):
    """Size of the terms summed in the evaluation."""
    a = np.asarray(dense(f.tensor, absolute=True), float)
    if a.ndim == len(H):
        a = a[..., None]
    return float(np.max(khatri([np.abs(h) for h in H], a), initial=0.0))


def environments(f, H, u):
    """Per active core: (name, linear map core -> coefficients)."""
    t = f.tensor
    out = []
    if isinstance(t, tensap.TreeBasedTensor):
        import copy
        for k in range(t.tree.nb_nodes):
            c = np.asarray(t.tensors[k].data)
            if c.size == 0:
                continue
            cols = []
            for j in range(c.size):
                v = copy.copy(t)
                v.tensors = np.array(list(t.tensors), dtype=object)
                e = np.zeros(c.size)
                e[j] = 1
                v.tensors[k] = tensap.FullTensor(e.reshape(c.shape))
                cols.append(np.asarray(dense(v), float).reshape(-1))
            out.append((k + 1, np.array(cols).T))
    else:
        space = [np.asarray(s) for s in t.space]
        cols = []
        for k in range(space[0].shape[1]):
            a = space[0][:, k]
            for s in space[1:]:
                a = np.multiply.outer(a, s[:, k])
            cols.append(a.reshape(-1))
        out.append((u["d"] + 1, np.array(cols).T))
    return out
