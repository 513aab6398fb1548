"""Mutation survey of the checks (development aid, not used by any check).

  mutate.py cov PROP N OUT       lines of tensap reached by each of N cases
  mutate.py run OUT N SEED [FILE..]   N random mutants, each against the cases
                                 that reach the mutated line

The mutants live in scratch copies of /repo/tensap; nothing is built or tested
here, a survivor is only a hint of something no check looks at.
"""
import ast
import glob
import hashlib
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/w/mut"
BASE = os.environ.get("BASE", "/repo")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONPATH=HERE, PYTHONHASHSEED="0",
           PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           PYTHONWARNINGS="ignore")


# ---------------------------------------------------------------- coverage
def cov(prop, n, out):
    sys.path.insert(0, HERE)
    from sim import core
    mod = importlib.import_module("sim." + prop.lower())
    mon = sys.monitoring
    T = 4
    mon.use_tool_id(T, "cov")
    seen = set()
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "tensap")

    def line(code, ln):
        if code.co_filename.startswith(root):
            seen.add((code.co_filename[len(root) + 1:], ln))
        return mon.DISABLE
    mon.register_callback(T, mon.events.LINE, line)
    mon.set_events(T, mon.events.LINE)
    res = {}
    for i in range(n):
        case = mod.gen(core.case_seed("1", mod.PROP, i), "quick")
        seen.clear()
        mon.restart_events()
        t = time.monotonic()
        core.run_case(mod, case, wall=60)
        dt = time.monotonic() - t
        for f, ln in seen:
            res.setdefault("%s:%d" % (f, ln), []).append((i, round(dt, 3)))
    json.dump(res, open(out, "w"))


# ---------------------------------------------------------------- mutants
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt],
       ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn],
       ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div,
       ast.Mod: ast.Mult}
STRIP = {"copy", "deepcopy", "sort", "sorted", "unique", "abs", "array",
         "atleast_1d", "atleast_2d", "ravel", "squeeze", "transpose",
         "flatten", "argsort", "sqrt", "conj", "list", "round", "fmax",
         "fmin", "maximum", "minimum", "max", "min"}


def sites(tree):
    """(lineno, kind, apply) for every possible mutation."""
    out = []
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if node.body and isinstance(node.body[0], ast.Expr) and \
                    isinstance(getattr(node.body[0], "value", None),
                               ast.Constant):
                node.body[0]._doc = True
                node.body[0].value._doc = True
    par = {}
    for p in ast.walk(tree):
        for field, v in ast.iter_fields(p):
            if isinstance(v, list):
                for k, c in enumerate(v):
                    if isinstance(c, ast.AST):
                        par[c] = (p, field, k)
            elif isinstance(v, ast.AST):
                par[v] = (p, field, None)

    def repl(node, new):
        p, f, k = par[node]
        new = ast.copy_location(new, node)
        if k is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[k] = new

    def in_func(node):
        while node in par:
            node = par[node][0]
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                return True
        return False

    def in_assert(node):
        while node in par:
            if isinstance(node, (ast.Assert, ast.Raise, ast.JoinedStr)):
                return True
            if isinstance(node, ast.Call) and \
                    getattr(node.func, "id", "") == "print":
                return True
            node = par[node][0]
        return False
    for node in ast.walk(tree):
        if not hasattr(node, "lineno") or not in_func(node) or \
                in_assert(node):
            continue
        ln = node.lineno
        if isinstance(node, ast.Compare):
            for alt in CMP.get(type(node.ops[0]), []):
                out.append((ln, "cmp", node, lambda n, a=alt:
                            n.ops.__setitem__(0, a())))
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            if isinstance(node.left, ast.Constant) and \
                    isinstance(node.left.value, str):
                continue
            out.append((ln, "bin", node, lambda n:
                        setattr(n, "op", BIN[type(n.op)]())))
        elif isinstance(node, ast.BoolOp):
            out.append((ln, "bool", node, lambda n: setattr(
                n, "op", ast.Or() if isinstance(n.op, ast.And)
                else ast.And())))
            out.append((ln, "drop", node, lambda n: n.values.pop()
                        if len(n.values) > 1 else None))
            out.append((ln, "drop0", node, lambda n: n.values.pop(0)
                        if len(n.values) > 1 else None))
        elif isinstance(node, ast.UnaryOp) and \
                isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
            out.append((ln, "unary", node, lambda n: repl(n, n.operand)))
        elif isinstance(node, ast.Constant) and not hasattr(node, "_doc"):
            if isinstance(node.value, bool):
                out.append((ln, "const", node, lambda n:
                            setattr(n, "value", not n.value)))
            elif isinstance(node.value, (int, float)):
                out.append((ln, "const", node, lambda n:
                            setattr(n, "value", n.value + 1)))
                if node.value:
                    out.append((ln, "const0", node, lambda n:
                                setattr(n, "value", n.value - 1
                                        if isinstance(n.value, int)
                                        else n.value * 100)))
        elif isinstance(node, ast.If):
            out.append((ln, "ifT", node, lambda n: setattr(
                n, "test", ast.Constant(True))))
            out.append((ln, "ifF", node, lambda n: setattr(
                n, "test", ast.Constant(False))))
        elif isinstance(node, ast.IfExp):
            out.append((ln, "iexp", node, lambda n: repl(n, n.body)))
            out.append((ln, "iexp2", node, lambda n: repl(n, n.orelse)))
        elif isinstance(node, (ast.Assign, ast.AugAssign)) or (
                isinstance(node, ast.Expr) and
                isinstance(node.value, ast.Call)):
            out.append((ln, "del", node, lambda n: repl(n, ast.Pass())))
            out.append((ln, "del", node, lambda n: repl(n, ast.Pass())))
        elif isinstance(node, (ast.Break, ast.Continue)):
            out.append((ln, "brk", node, lambda n: repl(n, ast.Pass())))
        elif isinstance(node, ast.Try) and node.finalbody:
            out.append((ln, "fin", node, lambda n: setattr(
                n, "finalbody", [ast.Pass()])))
        elif isinstance(node, ast.Call):
            name = getattr(node.func, "attr", getattr(node.func, "id", ""))
            if name in STRIP:
                if isinstance(node.func, ast.Attribute) and not node.args \
                        and not (isinstance(node.func.value, ast.Name) and
                                 node.func.value.id in ("np", "tensap")):
                    out.append((ln, "strip:" + name, node, lambda n:
                                repl(n, n.func.value)))
                    out.append((ln, "strip:" + name, node, lambda n:
                                repl(n, n.func.value)))
                elif node.args:
                    out.append((ln, "strip:" + name, node, lambda n:
                                repl(n, n.args[0])))
                    if "copy" in name:
                        out.append((ln, "strip:" + name, node, lambda n:
                                    repl(n, n.args[0])))
            if len(node.args) == 2 and not any(
                    isinstance(a, ast.Starred) for a in node.args):
                out.append((ln, "swap", node, lambda n: n.args.reverse()))
            if node.keywords:
                out.append((ln, "kw", node, lambda n: n.keywords.pop()))
            if name == "copy" and len(node.args) == 1:
                pass
        elif isinstance(node, ast.Subscript):
            if isinstance(node.slice, ast.Slice):
                s = node.slice
                if s.lower is not None:
                    out.append((ln, "slice", node, lambda n: setattr(
                        n.slice, "lower", None)))
                if s.upper is not None:
                    out.append((ln, "slice", node, lambda n: setattr(
                        n.slice, "upper", None)))
    return out


def mutant(path, pick, lines):
    """Random mutant of a file: (lineno, kind, old text, new text, source)."""
    src = open(path).read()
    tree = ast.parse(src)
    ss = [s for s in sites(tree) if s[0] in lines]
    if not ss:
        return None
    ln, kind, node, fn = ss[pick % len(ss)]
    top = node
    # show the enclosing statement
    stm = None
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt) and not isinstance(
                n, (ast.FunctionDef, ast.ClassDef)):
            if n.lineno <= ln <= n.end_lineno and (
                    stm is None or n.lineno >= stm.lineno):
                stm = n
    old = ast.unparse(stm).split("\n")[0] if stm is not None else "?"
    before = ast.unparse(tree)
    fn(node)
    ast.fix_missing_locations(tree)
    try:
        new = ast.unparse(tree)
        compile(new, path, "exec")
    except Exception:
        return None
    if new == before:
        return None
    b, a = before.split("\n"), new.split("\n")
    k = next((i for i, (x, y) in enumerate(zip(b, a)) if x != y), 0)
    return ln, kind, b[k].strip(), a[k].strip(), new


EVAL = r'''
import sys, json, importlib, time
import os
from sim import core
jobs = json.load(open(sys.argv[1]))
t0 = time.monotonic()
ran = 0
mods = {}
for prop, i in jobs:
    if time.monotonic() - t0 > float(sys.argv[2]):
        print("ALIVE", ran, "time")
        break
    mod = mods.get(prop) or importlib.import_module("sim." + prop.lower())
    mods[prop] = mod
    case = mod.gen(core.case_seed("1", mod.PROP, i), "quick")
    o = core.run_case(mod, case, wall=20)
    ran += 1
    if o["status"] != "ok":
        print("KILLED", prop, i, o["status"], o["cls"])
        break
else:
    print("ALIVE", ran)
'''


def run(out, n, seed, files):
    from concurrent.futures import ThreadPoolExecutor
    cover = {}
    for p in sorted(glob.glob(WORK + "/cov-*.json")):
        prop = os.path.basename(p)[4:-5].split("_")[0]
        for k, v in json.load(open(p)).items():
            cover.setdefault(k, {}).setdefault(prop, []).extend(v)
    byfile = {}
    for k in cover:
        f, ln = k.rsplit(":", 1)
        byfile.setdefault(f, {}).setdefault(int(ln), cover[k])
    names = sorted(f for f in byfile
                   if not files or any(x in f for x in files))
    rng = random.Random(int(seed))
    weights = [len(byfile[f]) for f in names]
    todo = []
    tried = set()
    while not os.environ.get("RERUN") and len(todo) < n and len(tried) < 50 * n:
        f = rng.choices(names, weights)[0]
        pick = rng.randrange(10 ** 6)
        if (f, pick) in tried:
            continue
        tried.add((f, pick))
        m = mutant(os.path.join(BASE, "tensap", f), pick, byfile[f])
        if m is None:
            continue
        todo.append((f,) + m)
    if os.environ.get("RERUN"):
        todo = []
        for x in open(os.environ["RERUN"]):
            d = json.loads(x)
            if d["got"].startswith("KILLED") or set(d["props"]) <= {"P04"}:
                continue
            h = os.path.join(WORK, "src", d["id"])
            todo.append((d["file"], d["line"], d["kind"], d["old"], d["new"],
                         open(h).read()))
    print(len(todo), "mutants", flush=True)
    open(WORK + "/eval.py", "w").write(EVAL)
    import queue
    slots = queue.Queue()
    J = int(os.environ.get("JOBS", "8"))
    for k in range(J):
        d = "%s/r%d" % (WORK, k)
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        shutil.copytree(os.path.join(BASE, "tensap"), d + "/tensap",
                        ignore=shutil.ignore_patterns("__pycache__"))
        slots.put(d)
    K = int(os.environ.get("PERPROP", "25"))
    SECS = float(os.environ.get("SECS", "60"))
    res = open(out, "a")

    def one(job):
        f, ln, kind, old, new, src = job
        d = slots.get()
        try:
            r = random.Random(repr((f, ln, kind)))
            jobs = []
            for prop, lst in byfile[f][ln].items():
                lst = sorted(lst, key=lambda x: (x[1], x[0]))
                # cheap ones first, but not only those
                pick = r.sample(lst, min(K, len(lst)))
                jobs += [(prop, i, c) for i, c in pick]
            jobs.sort(key=lambda x: x[2])
            jobs = [(p, i) for p, i, c in jobs]
            jf = d + "/jobs.json"
            json.dump(jobs, open(jf, "w"))
            path = os.path.join(d, "tensap", f)
            open(path, "w").write(src)
            try:
                o = subprocess.run(
                    [PY, WORK + "/eval.py", jf, str(SECS)],
                    env=dict(ENV, VERIF_REPO=d), cwd=HERE,
                    capture_output=True, text=True, timeout=SECS + 120)
                lines = [x for x in o.stdout.splitlines()
                         if x.startswith(("KILLED", "ALIVE"))]
                got = lines[-1] if lines else "CRASH " + \
                    o.stderr.strip().split("\n")[-1][:200]
            except subprocess.TimeoutExpired:
                got = "TIMEOUT"
            shutil.copy(os.path.join(BASE, "tensap", f), path)
            h = hashlib.sha256(src.encode()).hexdigest()[:16]
            os.makedirs(WORK + "/src", exist_ok=True)
            open(os.path.join(WORK, "src", h), "w").write(src)
            rec = dict(id=h, file=f, line=ln, kind=kind, old=old, new=new, got=got,
                       props={p: len(v) for p, v in byfile[f][ln].items()})
            res.write(json.dumps(rec) + "\n")
            res.flush()
            return got
        finally:
            slots.put(d)
    with ThreadPoolExecutor(J) as ex:
        got = list(ex.map(one, todo))
    alive = sum(g.startswith("ALIVE") for g in got)
    print("alive", alive, "of", len(got))


if __name__ == "__main__":
    if sys.argv[1] == "cov":
        cov(sys.argv[2], int(sys.argv[3]), sys.argv[4])
    else:
        run(sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5:])
