"""P06: a reused truncator always meets its tolerance and rank limits."""
import random

from . import hist, uops

PROP = "P06"
CASES = {"quick": 10000, "thorough": 200000}
RULE = ("a case is a seeded history of 4-18 truncations of a few matrices and "
        "tensors by a few truncators that are reused, some calls cut short or "
        "with failing kernels and repeated; non-trivial when at least one "
        "operation completed; distinct by the sequence of operations and "
        "fired faults")


def gen(seed, tier):
    r = random.Random(seed)
    p = r.choice([0.0, 0.0, 0.3, 0.6])
    return {"seed": seed, "cfg": {},
            "ops": hist.gen_ops(r, uops.OPS, r.randint(4, 18), p)}


def run(case, ctx):
    hist.run(case, ctx, uops, values=True, snaps=True)


simplify = hist.simplify
