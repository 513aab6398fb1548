"""Seeded histories of operations on a shared pool of objects.

An operation of a case is [name, seed, fault or None]; the operands and the
arguments are drawn from random.Random(seed) and the current pool, so that
dropping other operations leaves it as similar as possible.
"""
import contextlib
import io
import random

import numpy as np

from .core import Violation, snap, diff, RANDOM
from . import opbase

MAXPOOL = 9


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def gen_faults(r, kinds):
    k = r.choice(kinds)
    if k in ("interrupt", "alloc", "kernel"):
        return {"kind": k, "at": round(r.random(), 4)}
    return {"kind": "kernels", "name": r.choice(
        ["svd", "qr", "solve", "inv", "pinv", "matrix_rank", "lstsq"])}


def gen_ops(r, names, n, p_fault, kinds=("interrupt", "interrupt", "alloc",
                                        "kernel", "kernels")):
    ops = []
    focus = None
    if r.random() < 0.3:                     # swarm: a few operations only
        focus = r.sample(names, min(len(names), r.randint(3, 8)))
    for _ in range(n):
        name = r.choice(focus or names)
        f = gen_faults(r, list(kinds)) if r.random() < p_fault else None
        ops.append([name, r.randrange(1 << 30), f])
    return ops


def simplify(case):
    """Drop single faults; then shorten."""
    for i, op in enumerate(case["ops"]):
        if op[2] is not None:
            c = dict(case, ops=[list(o) for o in case["ops"]])
            c["ops"][i][2] = None
            yield c


def run(case, ctx, fam, values=True, snaps=False):
    r0 = random.Random(case["seed"])
    pool = fam.start(r0, case["cfg"])
    faulty = any(op[2] for op in case["ops"])
    ctx.config = "%s/%s" % (fam.__name__.split(".")[-1],
                            "faults" if faulty else "fault-free")
    for name, seed, fault in case["ops"]:
        r = random.Random(seed)
        op = fam.make(name, r, pool)
        if op is None:
            ctx.log("skip", name)
            continue
        before = snap([e.obj for e in pool]) if snaps else None
        args_before = snap(op.args) if snaps else None
        fired = None
        if fault is not None:
            with quiet():
                n, kernels, err0 = ctx.measure(op.call_copy)
                res, err, fired = ctx.faulty(fault, op.call, n, kernels)
        else:
            try:
                with quiet():
                    res, err = op.call(), None
            except Exception as e:
                res, err = None, e
        if snaps:
            _same(op, before, snap([e.obj for e in pool]), args_before,
                  snap(op.args), fired)
        if fired and err is not None:
            ctx.log(name, "failed", type(err).__name__)
            ctx.mark(name, fault["kind"], str(fired[0])[:24])
            # the same call again, undisturbed
            try:
                with quiet():
                    res, err = op.call(), None
            except Exception as e:
                res, err = None, e
            if snaps:
                _same(op, before, snap([e.obj for e in pool]), args_before,
                      snap(op.args), None)
        if err is not None:
            if op.may_raise:
                ctx.log(name, "raised", type(err).__name__)
                continue
            raise Violation("raised:" + name, "%s raised %s: %s on valid "
                            "operands%s" % (
                                name, type(err).__name__, err,
                                " after a failed attempt" if fired else ""))
        ctx.op(name)
        got = None
        if values:
            got = opbase.compare(op, res, value=fam.value)
        elif op.keep:
            try:
                got = np.asarray(fam.value(res), dtype=float)
            except Exception:
                got = None
        ctx.log(name, got if got is not None else 0)
        if not fired:
            ctx.mark(name, got.shape if got is not None else 0)
        if op.keep and (got is not None or not values):
            e = fam.keep(r, op, res, got)
            if e is not None:
                if len(pool) >= MAXPOOL:
                    pool.pop(r.randrange(len(pool)))
                pool.append(e)
        # results kept earlier must still be what they were
        if values and r.random() < 0.25 and pool:
            _verify(pool[r.randrange(len(pool))], name, fam)
    if values:
        for e in pool:
            _verify(e, "end", fam)


def _verify(e, after, fam):
    try:
        got = np.asarray(fam.value(e.obj), dtype=float)
    except Violation:
        raise
    except Exception as ex:
        raise Violation("corrupted", "an operand can no longer be read after "
                        "%s: %s" % (after, ex))
    if got.shape != e.model.shape or (got.size and not np.max(
            np.abs(got - e.model)) <= 1e-9 * max(e.mag, 1e-300)):
        raise Violation("corrupted", "an operand or earlier result changed "
                        "its value during the history (seen after %s)" % after)


def _same(op, b0, b1, a0, a1, fired):
    d = diff(b0, b1)
    what = "operand or earlier result"
    if not d:
        d = diff(a0, a1)
        what = "argument"
    if d:
        raise Violation("mutated:%s%s" % (op.name, ":fault" if fired else ""),
                        "%s changed an %s at %s%s" % (
                            op.name, what, d,
                            " (cut short by a fault)" if fired else ""))
