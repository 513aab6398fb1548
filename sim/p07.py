"""P07: random tree optimisation keeps the tensor, never costs more, stops."""
import copy
import random

import numpy as np

from . import dense, dops, hist
from .core import RANDOM, Violation, snap, diff, tensap
from .opbase import check_tbt

PROP = "P07"
CASES = {"quick": 1800, "thorough": 120000}
LINE_BUDGET = 30_000_000
DRAW_BUDGET = 30_000
RULE = ("a case is a tree-based tensor (order 1-6, active and inactive "
        "leaves, root rank 1-2, on a tree that suits it or not) and a seeded "
        "history of 1-5 optimisations of tree or leaf order and node and leaf "
        "permutations, with tolerances 0 to 0.5, 0-12 iterations, extreme "
        "draws, and interrupted or failing attempts that are retried; "
        "non-trivial when an optimisation completed; distinct by (tree "
        "shapes, operations, storages before and after, fired faults)")
MEASURE = "distinct sequences of (operation, tolerance, storage change, fault)"
REAL = ["tensap TreeBasedTensor, DimensionTree, Truncator, FullTensor"]
STUBS = ["numpy.random (seeded, extreme draws)",
         "numpy.linalg kernels (real, made to fail on command)"]
OPS = ["tree", "tree", "tree", "leaves", "leaves", "permute_nodes",
       "permute_leaves"]


def gen(seed, tier):
    r = random.Random(seed)
    pf = r.choice([0.0, 0.0, 0.4, 0.8])
    return {"seed": seed,
            "cfg": {"d": r.choice([1, 2, 3, 3, 4, 4, 4, 5, 5, 6]),
                    "kind": r.choice(["hidden", "hidden", "hidden", "plain",
                                      "separable", "full"]),
                    "inactive": r.choice([0.0, 0.0, 0.5]),
                    "root": r.choice([1, 1, 1, 2]),
                    "adv": r.choice([0.0, 0.0, 0.3, 1.0])},
            "ops": hist.gen_ops(r, OPS, r.randint(1, 5), pf)}


simplify = hist.simplify


def start(r, cfg):
    d = cfg["d"]
    shape = [r.randint(2, 3) for _ in range(d)]
    d2i, adj = dense.make_tree(r, d)
    if cfg["kind"] == "plain" or d == 1:
        cores = dense.make_tbt(r, d2i, adj, shape, root_rank=cfg["root"],
                               inactive=cfg["inactive"], deficient=0.2)
        return dense.build_tbt(cores, d2i, adj)
    if cfg["kind"] == "full":
        # full ranks: every truncation uses up the tolerance it is given
        if r.random() < 0.6:
            lin = tensap.DimensionTree.linear(d)
            d2i, adj = lin.dim2ind, lin.adjacency_matrix
        m = dense.g(r, shape)
        if r.random() < 0.3:
            for k in range(d):
                q = np.linalg.qr(dense.g(r, [shape[k]] * 2))[0]
                m = np.moveaxis(np.tensordot(
                    q * 2.0 ** -np.arange(shape[k]), m, axes=([1], [k])), 0, k)
        tree = tensap.DimensionTree(d2i, adj)
        return tensap.Truncator(1e-13, np.inf).hsvd(tensap.FullTensor(m), tree)
    # low ranks for a tree which is not the one the tensor is given in
    s2, a2 = dense.make_tree(r, d)
    if cfg["kind"] == "separable":
        m = dense.g(r, [shape[0]])
        for k in shape[1:]:
            m = np.multiply.outer(m, dense.g(r, [k]))
        pairs = r.sample(range(d), 2) if d > 2 else [0, 1]
        p = np.moveaxis(m, pairs, [0, 1])
        p = p + np.multiply.outer(dense.g(r, p.shape[:2]),
                                  np.full(p.shape[2:], 0.1))
        m = np.moveaxis(p, [0, 1], pairs)
    else:
        cores = dense.make_tbt(r, s2, a2, shape, maxrank=2)
        m = dense.dense_tbt(dense.build_tbt(cores, s2, a2))
    tree = tensap.DimensionTree(d2i, adj)
    leaves = set(int(k) for k in d2i)
    act = np.array([k + 1 not in leaves or r.random() >= cfg["inactive"]
                    for k in range(len(adj))])
    trunc = tensap.Truncator(1e-13, np.inf)
    return trunc.hsvd(tensap.FullTensor(m), tree,
                      act if not act.all() else None)


def admissible(t):
    adj = np.asarray(t.tree.adjacency_matrix)
    d2i = [int(k) for k in t.tree.dim2ind]
    n = len(adj)

    def rk(k):
        if k in d2i and np.asarray(t.tensors[k - 1].data).size == 0:
            return int(t.shape[d2i.index(k)])
        return int(t.ranks[k - 1])
    par = dense.parents_of(adj)
    for k in range(1, n + 1):
        if np.asarray(t.tensors[k - 1].data).size == 0:
            continue
        ch = dense.children_of(adj, k)
        if not ch:
            if par[k - 1] and rk(k) > int(t.shape[d2i.index(k)]):
                return False
            continue
        r = [rk(c) for c in ch]
        if par[k - 1] and rk(k) > np.prod(r):
            return False
        for i in range(len(r)):
            if np.asarray(t.tensors[ch[i] - 1].data).size == 0:
                continue                     # a dimension, not a rank
            rest = np.prod(r[:i] + r[i + 1:]) * rk(k)
            if r[i] > rest:
                return False
    return True


def run(case, ctx):
    with hist.quiet():
        _run(case, ctx)


def _run(case, ctx):
    cfg = case["cfg"]
    t = start(random.Random(case["seed"]), cfg)
    faulty = any(o[2] for o in case["ops"])
    ctx.config = "%s/%s/%s" % (cfg["kind"], "extreme draws" if cfg["adv"]
                               else "real draws",
                               "faults" if faulty else "fault-free")
    for name, seed, fault in case["ops"]:
        t = step(name, random.Random(seed), fault, t, cfg, ctx)


def args_of(name, r, t, cfg):
    if cfg["kind"] == "full" and name in ("tree", "leaves"):
        tol = r.choice([0.1, 0.3, 0.4, 0.5])
        return tol, [tol, r.choice([5, 12, 12])]
    if r.random() < 0.5:
        tol = r.choice([1e-14, 1e-10, 1e-8])
    else:
        tol = r.choice([1e-4, 1e-2, 0.1, 0.3, 0.5])
    d = int(t.order)
    if name in ("tree", "leaves"):
        k = r.choice([0, 1, 1, 2, 3, 5, 12])
        return tol, [tol, float(k) if r.random() < 0.1 else k]
    if name == "permute_leaves":
        return tol, [r.sample(range(d), d), tol]
    tree = t.tree
    cand = [(a, b) for a in range(1, tree.nb_nodes + 1)
            for b in range(1, tree.nb_nodes + 1) if a != b
            and a != tree.root and b != tree.root
            and a not in tree.ascendants(b) and b not in tree.ascendants(a)]
    if not cand:
        return tol, None
    return tol, [list(r.choice(cand)), tol]


def step(name, r, fault, t, cfg, ctx):
    tol, args = args_of(name, r, t, cfg)
    if args is None:
        return t
    d = int(t.order)
    model = dense.dense_tbt(t)
    big = float(np.linalg.norm(dense.dense_tbt(t, absolute=True)))
    norm = float(np.linalg.norm(model))
    method = {"tree": "optimize_dimension_tree",
              "leaves": "optimize_leaves_permutations"}.get(name, name)
    seed = r.randrange(1 << 30)

    def call(x, a):
        RANDOM.seed(seed)
        RANDOM.adv, RANDOM.p = random.Random(seed), cfg["adv"]
        n0 = RANDOM.draws
        try:
            y = getattr(x, method)(*a)
        finally:
            RANDOM.p = 0.0
        return y, RANDOM.draws - n0

    before = snap(t)
    abefore = snap(args)

    def unchanged(when):
        dd = diff(before, snap(t)) or diff(abefore, snap(args))
        if dd:
            raise Violation("mutated:" + name, "%s changed the original "
                            "tensor at %s%s" % (name, dd, when))
    ref = None
    if fault is not None:
        c, ca = copy.deepcopy(t), copy.deepcopy(args)
        n, kernels, err0 = ctx.measure(
            lambda: call(copy.deepcopy(c), copy.deepcopy(ca)))
        try:
            ref = call(copy.deepcopy(c), copy.deepcopy(ca))[0]
        except Exception:
            ref = None
        res, err, fired = ctx.faulty(fault, lambda: call(t, args), n, kernels)
        unchanged(" when it failed")
        ctx.mark(name, "fault", fault["kind"], bool(err))
    try:
        res, draws = call(t, args)
    except Exception as e:
        raise Violation("raised:" + name, "%s raised %s: %s" % (
            name, type(e).__name__, e))
    unchanged("")
    if ref is not None:
        dd = diff(snap(ref), snap(res))
        if dd:
            raise Violation("retry:" + name, "after a failed attempt the same "
                            "seeds give another tensor (%s)" % dd)
        ctx.probe("retried after a failed attempt")
    if not isinstance(res, tensap.TreeBasedTensor):
        raise Violation("type:" + name, type(res).__name__)
    check_tbt(res, name)
    dops.truth(name, res.tree)
    if [int(s) for s in res.shape] != [int(s) for s in t.shape]:
        raise Violation("shape:" + name, "%s instead of %s" % (
            res.shape, t.shape))
    got = dense.dense_tbt(res)
    if got.shape != model.shape:
        raise Violation("shape:" + name, "%s instead of %s" % (
            got.shape, model.shape))
    err = float(np.linalg.norm(got - model))
    if not err <= tol * norm * (1 + 1e-6) + 1e-11 * big:
        raise Violation("tolerance:" + name, "%s: relative error %.3e for the "
                        "tolerance %.1e" % (name, err / max(norm, 1e-300),
                                            tol))
    s0, s1 = int(t.storage()), int(res.storage())
    if name in ("tree", "leaves"):
        if s1 > s0:
            raise Violation("storage:" + name, "%s increased the storage from "
                            "%d to %d" % (name, s0, s1))
        if s1 < s0:
            ctx.probe("storage reduced")
            if not admissible(res):
                raise Violation("admissible:" + name, "the ranks %s are not "
                                "admissible" % (res.ranks,))
        k = int(args[1])
        n = int(t.tree.nb_nodes)
        if draws > 2 * k * (1 + d * (n + 1)) + 20:
            raise Violation("iterations:" + name, "%d draws for %d "
                            "iterations" % (draws, k))
        if k == 0 and (s1 != s0 or not np.array_equal(
                res.tree.adjacency_matrix, t.tree.adjacency_matrix)):
            raise Violation("iterations:" + name, "the tree changed in zero "
                            "iterations")
        if name == "leaves":
            a, b = dops.decode(dops.encode(t.tree)), dops.decode(
                dops.encode(res.tree))
            if sorted(a.desc(a.root())) != sorted(b.desc(b.root())) or \
                    _shape(a, a.root()) != _shape(b, b.root()):
                raise Violation("leaves", "optimising the order of the leaves "
                                "changed the shape of the tree")
        ctx.op(name)
    elif name == "permute_nodes":
        a = dops.decode(dops.encode(t.tree))
        u, v = args[0]
        par = dict(a.par)
        par[u], par[v] = par[v], par[u]
        b = dops.decode(dops.encode(res.tree))
        if b.par != par or b.d2i != a.d2i:
            raise Violation("permuted", "the nodes %d and %d are not "
                            "exchanged" % (u, v))
        ctx.op(name)
    else:
        ctx.op(name)
    ctx.log(name, got, s1)
    ctx.mark(name, tol, s0, s1, d)
    return res


def _shape(t, k):
    return tuple(sorted(_shape(t, c) for c in t.ch[k]))
