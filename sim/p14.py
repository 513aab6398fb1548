"""P14: multi-index set operations agree with set semantics."""
import random

from . import mops, hist

PROP = "P14"
CASES = {"quick": 8000, "thorough": 200000}
RULE = ("a case is a seeded history of 4-24 operations and generators on a "
        "pool of shared multi-index sets (and grids), some cut short and "
        "repeated; non-trivial when at least one operation completed; "
        "distinct by the sequence of (operation, resulting size) or fired "
        "faults")


def gen(seed, tier):
    r = random.Random(seed)
    p = r.choice([0.0, 0.0, 0.3, 0.6])
    return {"seed": seed, "cfg": {},
            "ops": hist.gen_ops(r, mops.OPS, r.randint(4, 24), p,
                                ("interrupt", "interrupt", "alloc"))}


def run(case, ctx):
    hist.run(case, ctx, mops, values=True, snaps=True)


simplify = hist.simplify
