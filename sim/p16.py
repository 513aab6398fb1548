"""P16: a failed or interrupted fit or approximation can be retried."""
import copy
import random

import numpy as np

from . import dense, hist, learn, p08, p10, p15
from .core import RANDOM, Violation, snap, diff, tensap
from .dense import g

PROP = "P16"
CASES = {"quick": 1000, "thorough": 60000}
LINE_BUDGET = 120_000_000
DRAW_BUDGET = 600_000
RULE = ("a case is one solver object (tensor learning, linear or density "
        "learning, principal components of a black box, interpolation or "
        "projection) and a seeded history of 1-3 calls with other data and "
        "settings; each call first fails 1-3 times (interrupt or failed "
        "allocation at any source line, kernel, user function) and is then "
        "retried with the same seeds; non-trivial when a fault fired and the "
        "retry completed; distinct by (subject, form, fired faults, outcome)")
MEASURE = "distinct sequences of (subject, form, faults, outcome)"
REAL = ["tensap solvers, tensors, trees, bases, black-box approximation"]
STUBS = ["user functions (pure, made to raise on command)",
         "numpy.random (seeded)",
         "numpy.linalg kernels (real, made to fail on command)"]
SUBJECTS = ["tensor"] * 7 + ["linear"] * 4 + ["density", "density",
                                              "tensor density"] + \
    ["pca"] * 3 + ["interp"] * 3
KINDS = ["interrupt", "interrupt", "interrupt", "alloc", "kernel", "kernel",
         "kernels", "callback", "callback"]


def gen(seed, tier):
    r = random.Random(seed)
    ops = []
    kind = r.choice(SUBJECTS)
    for _ in range(r.choice([1, 1, 2, 3])):
        faults = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.choice(KINDS)
            faults.append({"kind": k, "at": round(r.random(), 4),
                           "name": r.choice(p10.KERN)})
        ops.append(["fit", r.randrange(1 << 30), faults])
    return {"seed": seed, "ops": ops,
            "cfg": {"subject": kind, "keep": r.choice([0.0, 0.5]),
                    "adv": r.choice([0.0, 0.0, 0.1])}}


def simplify(case):
    for i, op in enumerate(case["ops"]):
        for j in range(len(op[2])):
            c = dict(case, ops=[list(o) for o in case["ops"]])
            c["ops"][i][2] = op[2][:j] + op[2][j + 1:]
            yield c


# ----------------------------------------------------------------- subjects
class Subject:
    """solver: the object used again and again; fresh(): a new one;
    call(solver): what is retried; inputs(): what the user gave."""

    form = ""

    def arm(self, k):
        """The k-th next call of the user function fails."""

    def calls(self):
        """Calls of the user function since the last arm(None)."""
        return 0

    def prepare(self, r, first, keep):
        pass


class Tensor(Subject):
    def __init__(self, r):
        self.u = learn.world(r)
        self.solver = self.fresh_solver()

    def fresh_solver(self):
        return learn.make_solver(self.u)

    def prepare(self, r, first, keep):
        if first or r.random() >= keep:
            learn.data(r, self.u, self.u["fmt"])
        learn.settings(r, self.u)
        u = self.u
        self.form = "%s/%s/%s" % (u["fmt"], u["init"], u["adaptation"])
        learn.apply(self.solver, u)

    def fresh(self):
        s = self.fresh_solver()
        learn.apply(s, self.u)
        return s

    def call(self, s):
        return s.solve()

    def inputs(self):
        return snap(self.u)

    def arm(self, k):
        learn.Basis.countdown[0] = 0 if k is None else k + 1
        learn.Basis.count = 0

    def calls(self):
        return learn.Basis.count


class Linear(Subject):
    def __init__(self, r):
        self.cfg = {"basis": r.random() < 0.5}
        self.u = {}
        self.solver = tensap.LinearModelLearningSquareLoss()

    def prepare(self, r, first, keep):
        u, mode = self.u, r.choice(p10.OPS)
        if first or r.random() >= keep or mode in ("l0", "l1", "l2"):
            p10.data(r, self.cfg, mode, u)
        p10.settings(r, mode, u)
        p10.apply(self.solver, u)
        self.form = "%s/%s" % (mode, u["design"])

    def fresh(self):
        s = tensap.LinearModelLearningSquareLoss()
        p10.apply(s, self.u)
        return s

    def call(self, s):
        return s.solve()

    def inputs(self):
        return snap(self.u)

    def arm(self, k):
        p10.Basis.armed[0] = k is not None

    def calls(self):
        return 1


class Density(Subject):
    """Linear density estimation from samples."""

    def __init__(self, r):
        self.solver = tensap.LinearModelLearningDensityL2()
        self.u = {}

    def prepare(self, r, first, keep):
        u = self.u
        if first or r.random() >= keep:
            p, n = r.randint(1, 6), r.randint(4, 15)
            X = tensap.UniformRandomVariable(-1, 1)
            u["basis"] = p10.Basis(X.orthonormal_polynomials(), range(p))
            u["x"] = np.array([r.uniform(-1, 1) for _ in range(n)])
            u["eval"] = u["basis"].eval(u["x"]) if r.random() < 0.4 else None
        s = u["set"] = {}
        s["basis_adaptation"] = r.random() < 0.4
        s["regularization"] = not s["basis_adaptation"] and r.random() < 0.5
        s["regularization_type"] = "l0"
        s["error_estimation"] = r.random() < 0.7
        s["error_estimation_type"] = "leave_out"
        self.form = "%s/%s" % (s["basis_adaptation"], s["regularization"])
        self.give(self.solver)

    def give(self, s):
        u = self.u
        s.basis, s.basis_eval, s.training_data = u["basis"], u["eval"], u["x"]
        for k, v in u["set"].items():
            setattr(s, k, v)

    def fresh(self):
        s = tensap.LinearModelLearningDensityL2()
        self.give(s)
        return s

    def call(self, s):
        return s.solve()

    def inputs(self):
        return snap(self.u)

    arm = Linear.arm
    calls = Linear.calls


class TensorDensity(Subject):
    """Tree based density estimation from samples."""

    def __init__(self, r):
        self.u = u = {}
        d = u["d"] = r.choice([2, 2, 3])
        u["shape"] = [r.randint(1, 3) for _ in range(d)]
        X = tensap.UniformRandomVariable(-1, 1)
        u["bases"] = tensap.FunctionalBases([
            learn.Basis(X.orthonormal_polynomials(), range(k))
            for k in u["shape"]])
        d2i, adj = dense.make_tree(r, d)
        u["tree"] = tensap.DimensionTree(d2i, adj)
        u["active"] = [True] * len(adj)
        self.solver = self.make()

    def make(self):
        return tensap.TreeBasedTensorLearning(
            self.u["tree"], self.u["active"], tensap.DensityL2LossFunction())

    def prepare(self, r, first, keep):
        u = self.u
        if first or r.random() >= keep:
            n = r.randint(6, 20)
            u["x"] = np.array([[r.uniform(-1, 1) for _ in range(u["d"])]
                               for _ in range(n)])
        u["set"] = {"rank": r.choice([1, 1, 2]),
                    "rank_adaptation": r.random() < 0.4,
                    "initialization_type": r.choice(["random", "ones"]),
                    "store_iterates": r.random() < 0.5}
        u["lm"] = {"basis_adaptation": r.random() < 0.3,
                   "error_estimation": r.random() < 0.5}
        u["alt"] = {"max_iterations": r.randint(1, 3)}
        u["iters"] = r.randint(1, 3)
        self.form = u["set"]["initialization_type"]
        self.give(self.solver)

    def give(self, s):
        u = self.u
        s.display = False
        s.bases, s.training_data = u["bases"], u["x"]
        for k, v in u["set"].items():
            setattr(s, k, v)
        m = tensap.LinearModelLearningDensityL2()
        m.error_estimation_type = "leave_out"
        for k, v in u["lm"].items():
            setattr(m, k, v)
        s.linear_model_learning = m
        for k, v in u["alt"].items():
            s.alternating_minimization_parameters[k] = v
        s.rank_adaptation_options["max_iterations"] = u["iters"]

    def fresh(self):
        s = self.make()
        self.give(s)
        return s

    def call(self, s):
        return s.solve()

    def inputs(self):
        return snap(self.u)

    arm = Tensor.arm
    calls = Tensor.calls


class Pca(Subject):
    def __init__(self, r):
        self.w = p08.world(r.randrange(1 << 30), {
            "d": r.choice([2, 3, 3, 4]), "fun": r.random() < 0.4})
        self.cls = tensap.FunctionalTensorPrincipalComponentAnalysis if \
            self.w.fun else tensap.TensorPrincipalComponentAnalysis
        self.solver = self.cls()
        self.s = {}
        if self.w.fun:
            self.s = {"bases": self.w.bases, "grid": self.w.grid}

    def prepare(self, r, first, keep):
        w = self.w
        self.name = r.choice(p08.OPS)
        self.args, tree = {}, None
        if self.name == "tree":
            d2i, adj = dense.make_tree(r, w.d)
            tree = self.args["tree"] = tensap.DimensionTree(d2i, adj)
        self.s.update(p08.settings(r, w, self.name, tree, None))
        self.s["display"] = False
        self.give(self.solver)
        self.form = self.name

    def give(self, s):
        for k, v in self.s.items():
            setattr(s, k, v)

    def fresh(self):
        s = self.cls()
        self.give(s)
        return s

    def call(self, s):
        meth = getattr(s, {"hopca": "hopca", "tucker": "tucker_approximation",
                           "tt": "tt_approximation",
                           "tree": "tree_based_approximation"}[self.name])
        if self.w.fun:
            return meth(self.w.black, **self.args)
        return meth(self.w.black, self.w.shape_arg, **self.args)

    def inputs(self):
        return snap([self.s, self.args, self.w.shape,
                     None if self.w.fun else self.w.shape_arg])

    def arm(self, k):
        p08.clear(self.w.black)
        self.w.black.fail_at = k

    def calls(self):
        return self.w.black.calls


class Interp(Subject):
    def __init__(self, r):
        self.bs = [p15.make_basis(r, r.choice(p15.KINDS))
                   for _ in range(r.choice([1, 2, 2, 3]))]
        self.solver = None
        self.job = None

    def prepare(self, r, first, keep):
        job = None
        while job is None:
            name = r.choice(p15.OPS)
            job = p15.MAKE[name](r, self.bs, None)
        self.job = job
        self.form = name

    def fresh(self):
        return None

    def call(self, s):
        return self.job.call()

    def inputs(self):
        return snap(self.job.inputs)

    def arm(self, k):
        if self.job.fun is not None:
            self.job.fun.clear()
            self.job.fun.fail_at = k

    def calls(self):
        return self.job.fun.calls if self.job.fun is not None else 0


MAKE = {"tensor": Tensor, "linear": Linear, "density": Density,
        "tensor density": TensorDensity, "pca": Pca, "interp": Interp}


# ---------------------------------------------------------------------- run
def run(case, ctx):
    with hist.quiet():
        _run(case, ctx)


def _run(case, ctx):
    cfg = case["cfg"]
    sub = MAKE[cfg["subject"]](random.Random(case["seed"]))
    ctx.config = cfg["subject"]
    first = True
    for name, seed, faults in case["ops"]:
        r = random.Random(seed)
        sub.prepare(r, first, cfg["keep"])
        first = False
        step(sub, r.randrange(1 << 30), faults, cfg, ctx)


def attempt(sub, s, rs, adv):
    """(result picture, error name) of one call."""
    RANDOM.seed(rs)
    RANDOM.adv = random.Random(rs) if adv else None
    RANDOM.p = adv
    try:
        return snap(sub.call(s)), None
    except Exception as e:
        return None, e
    finally:
        RANDOM.adv, RANDOM.p = None, 0.0


def step(sub, rs, faults, cfg, ctx):
    what = "%s (%s)" % (cfg["subject"], sub.form)
    before = sub.inputs()

    def unchanged(when):
        d = diff(before, sub.inputs())
        if d:
            raise Violation("input", "%s changed what the user gave at %s, %s"
                            % (what, d, when))
    # an undisturbed run
    ref = []
    sub.arm(None)
    nl, kern, _ = ctx.measure(
        lambda: ref.append(attempt(sub, sub.fresh(), rs, cfg["adv"])))
    n = sub.calls()
    ref, ref_err = ref[0]
    unchanged("by an undisturbed run")
    kinds = []
    for fault in faults:
        got = []

        def call():
            RANDOM.seed(rs)
            RANDOM.adv = random.Random(rs) if cfg["adv"] else None
            RANDOM.p = cfg["adv"]
            try:
                return sub.call(sub.solver)
            finally:
                RANDOM.adv, RANDOM.p = None, 0.0
        sub.arm(None)
        if fault["kind"] == "callback":
            ctx.plan("callback")
            if not n:
                continue
            sub.arm(min(int(fault["at"] * n), n - 1))
            try:
                call()
            except Exception as e:
                if "CallbackError" in type(e).__name__:
                    ctx.fault("callback")
                    got = ["callback"]
            sub.arm(None)
        else:
            _, err, fired = ctx.faulty(fault, call, nl, kern)
            if fired:
                got = [fault["kind"], type(err).__name__]
        kinds += got
        unchanged("by a call that failed (%s)" % (got or fault["kind"]))
    sub.arm(None)
    res, err = attempt(sub, sub.solver, rs, cfg["adv"])
    unchanged("by the retry")
    if type(err) is not type(ref_err):
        raise Violation("retry", "%s: after %s the retry ends with %r, an "
                        "undisturbed run with %r" % (
                            what, kinds or "no failure", err, ref_err))
    if err is None:
        d = diff(ref, res)
        if d:
            raise Violation("retry", "%s: after %s the retry differs from an "
                            "undisturbed run at %s" % (
                                what, kinds or "no failure", d))
        ctx.op("retried" if kinds else "repeated")
        ctx.log(cfg["subject"], res)
    else:
        ctx.probe("undisturbed run raises " + type(err).__name__)
    if kinds:
        ctx.mark(cfg["subject"], sub.form, str(kinds), err is None)
