"""P03: full, canonical, diagonal and sparse tensors against dense arrays."""
import random

from . import hist, fops

PROP = "P03"
CASES = {"quick": 10000, "thorough": 200000}
RULE = ("a case is a seeded history of 6-26 operations on a shared pool of "
        "full, canonical, diagonal and sparse tensors; non-trivial when at "
        "least one operation completed; distinct by the sequence of "
        "(operation, result shape) or fired faults")


def gen(seed, tier):
    r = random.Random(seed)
    p = r.choice([0.0, 0.0, 0.3, 0.6])
    names = fops.OPS
    if r.random() < 0.4:
        k = r.choice(["full", "can", "dia", "spa"])
        names = [n for n in names if n.startswith(k + ".")]
    return {"seed": seed, "cfg": {},
            "ops": hist.gen_ops(r, names, r.randint(6, 26), p)}


def run(case, ctx):
    hist.run(case, ctx, fops, values=True)


simplify = hist.simplify
