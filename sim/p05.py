"""P05: dimension trees stay valid for every random draw and edit history."""
import random

from . import dops, hist

PROP = "P05"
CASES = {"quick": 10000, "thorough": 200000}
DRAW_BUDGET = 20000
RULE = ("a case is a seeded history of 4-24 constructions (half of the random "
        "ones with extreme legal draws), edits, comparisons and queries of "
        "dimension trees, some cut short and repeated; non-trivial when at "
        "least one operation completed; distinct by the sequence of "
        "(operation, resulting size) or fired faults")


def gen(seed, tier):
    r = random.Random(seed)
    p = r.choice([0.0, 0.0, 0.3, 0.6])
    return {"seed": seed, "cfg": {},
            "ops": hist.gen_ops(r, dops.OPS, r.randint(4, 24), p,
                                ("interrupt", "interrupt", "alloc"))}


def run(case, ctx):
    hist.run(case, ctx, dops, values=True)


simplify = hist.simplify
