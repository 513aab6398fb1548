"""P01: operands, earlier results and caller data keep their values."""
import random

from . import dops, fops, hist, mops, tops, uops

PROP = "P01"
CASES = {"quick": 10000, "thorough": 150000}
RULE = ("a case is a seeded history of 4-16 operations of one family on a "
        "shared pool; most operations are cut short by an interruption, a "
        "failing allocation or a failing kernel, then repeated; non-trivial "
        "when at least one operation completed or one fault fired; distinct "
        "by (operations, result shapes, fired faults)")
MEASURE = "distinct sequences of (operation, result shape | fault kind, file)"
FAMILIES = {"tops": tops, "fops": fops, "dops": dops,
            "mops": mops, "uops": uops}


def gen(seed, tier):
    r = random.Random(seed)
    fam = r.choice(sorted(FAMILIES))
    cfg = {"family": fam, "unary": r.choice([0.0, 0.0, 0.3])}
    p = r.choice([0.0, 0.5, 0.9])
    return {"seed": seed, "cfg": cfg,
            "ops": hist.gen_ops(r, FAMILIES[fam].OPS, r.randint(4, 16), p)}


def run(case, ctx):
    hist.run(case, ctx, FAMILIES[case["cfg"]["family"]], values=False,
             snaps=True)


simplify = hist.simplify
