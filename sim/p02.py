"""P02: tree-based tensors against dense arrays, through any history."""
import random

from . import hist, tops

PROP = "P02"
CASES = {"quick": 10000, "thorough": 120000}
RULE = ("a case is a seeded history of 6-26 operations on a shared pool of "
        "tree-based tensors over random trees; non-trivial when at least one "
        "operation completed; two cases are distinct when the sequence of "
        "(operation, result shape) or fired faults differs")
ASSUMPTIONS = ["numpy and scipy kernels are atomic and correct when they are "
               "not made to fail",
               "rounding tolerance is 1e-9 of the value computed with "
               "absolute cores (2e-6 where gramian square roots are involved)"]


def gen(seed, tier):
    r = random.Random(seed)
    cfg = {"unary": r.choice([0.0, 0.0, 0.0, 0.3])}
    n = r.randint(6, 26)
    p = r.choice([0.0, 0.0, 0.3, 0.6])
    return {"seed": seed, "cfg": cfg, "ops": hist.gen_ops(r, tops.OPS, n, p)}


def run(case, ctx):
    hist.run(case, ctx, tops, values=True)


simplify = hist.simplify
