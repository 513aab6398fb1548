"""P12: same seeds give the same results, whatever ran before."""
import importlib
import json
import os
import random
import subprocess
import sys

from .core import HarnessError, Violation

PROP = "P12"
CASES = {"quick": 1100, "thorough": 60000}
CASE_WALL = 400
UNREPEATABLE = True           # a result that does not repeat is the violation
RULE = ("a case is a target (a whole simulated execution of another check: "
        "tensor arithmetic, trees, index sets, rank adaptation, truncation, "
        "PCA, cross approximation, learning, sampling, projection) and a "
        "history of 1-4 other executions, with their own faults; the target "
        "is executed in a fresh process, and in another fresh process with "
        "another hash seed, after the history, with jumping clocks, "
        "garbage in uninitialised memory and another garbage collection "
        "schedule; results are compared bit for bit; non-trivial when the "
        "target recorded a result; distinct by (target, results)")
MEASURE = "distinct (target family, operations completed, number of events)"
REAL = ["all of tensap that the targets reach", "numpy and Python generators",
        "process state"]
STUBS = ["clock (simulated, jumps and drifts)", "entropy of the operating "
         "system for generators without a seed", "memory allocator contents (np.empty "
         "called by the library returns garbage)", "garbage collector schedule",
         "what the targets stub"]
POOL = ["P01", "P02", "P03", "P05", "P06", "P07", "P08", "P09", "P10", "P11",
        "P13", "P14", "P15", "P16", "POOL"]
WEIGHT = {"P01": 3, "P02": 2, "P03": 2, "P05": 3, "P06": 2, "P07": 2, "P08": 2,
          "P09": 2, "P10": 4, "P11": 2, "P13": 4, "P14": 2, "P15": 4, "P16": 2,
          "POOL": 16}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def available():
    here = os.path.dirname(os.path.abspath(__file__))
    return [p for p in POOL if os.path.exists(
        os.path.join(here, p.lower() + ".py"))]


def gen(seed, tier):
    r = random.Random(seed)
    names = available()
    w = [WEIGHT[p] for p in names]
    t = r.choices(names, w)[0]
    target = [t, r.randrange(1 << 40)]
    ops = []
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if t == "POOL" and k < 0.4:      # the same calls on other objects
            ops.append([t, target[1], r.randrange(1, 1 << 20)])
        elif k < 0.12:
            ops.append([target[0], target[1], None])
        elif k < 0.65:
            ops.append([t, r.randrange(1 << 40), None])
        else:
            ops.append([r.choices(names, w)[0], r.randrange(1 << 40), None])
    env = {"err": r.choice(["ignore", "warn"]), "entropy": r.randrange(3, 1 << 30)}
    if r.random() < 0.5:
        env["clock"] = [1.7e9 + r.choice([-1.7e9, -3600.0, 0.5, 86400.0, 1e9])
                        + r.random(), r.choice([1e-3, 0.0, 100.0, -1.0])]
    if r.random() < 0.5:
        env["memory"] = True
    if r.random() < 0.5:
        env["gc"] = r.choice([[0, 0, 0], [50, 2, 2], [5, 1, 1]])
    return {"seed": seed, "ops": ops, "cfg": {"target": target, "env": env}}


def simplify(case):
    for k in ("clock", "memory", "gc"):
        if k in case["cfg"]["env"]:
            env = {a: b for a, b in case["cfg"]["env"].items() if a != k}
            yield dict(case, cfg=dict(case["cfg"], env=env))
    # shorten the target itself
    sub = case["cfg"].get("case") or _case(*case["cfg"]["target"])
    n = len(sub["ops"])
    size = n
    while size >= 1 and n > 1:
        for i in range(0, n, size):
            ops = sub["ops"][:i] + sub["ops"][i + size:]
            if ops:
                yield dict(case, cfg=dict(case["cfg"],
                                          case=dict(sub, ops=ops)))
        size //= 2


def _case(prop, seed, twin=None):
    mod = importlib.import_module("sim." + prop.lower())
    case = mod.gen(seed, "quick")
    if twin is not None:
        case["ops"] = [[kind, (a + twin) % (1 << 30), b]
                       for kind, a, b in case["ops"]]
    return case


# -- the two pristine processes ----------------------------------------------
class Server:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen(
            [sys.executable, "-m", "sim.forkserver"], cwd=HERE, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True)
        if self.p.stdout.readline().strip() != "ready":
            raise HarnessError("fork server did not start")

    def send(self, req):
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()

    def answer(self):
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError("fork server died")
        return json.loads(line)


SERVERS = []


def servers():
    if not SERVERS:
        SERVERS.append(Server(1))
        SERVERS.append(Server(98765))
    return SERVERS


def run(case, ctx):
    cfg = case["cfg"]
    prop, seed = cfg["target"]
    target = cfg.get("case") or _case(prop, seed)
    env = cfg["env"]
    hist = [[p, _case(p, s, v)] for p, s, v in case["ops"]]
    ctx.config = "target %s" % prop
    fresh, used = servers()
    used.send({"cases": hist + [[prop, target]], "env": env})
    fresh.send({"cases": [[prop, target]], "watch": True,
                "env": {"entropy": 2, "err": "warn" if env["err"] == "ignore" else
                        "ignore"}})
    b = used.answer()
    a = fresh.answer()
    for o in (a, b):
        if o["status"] == "hang":
            ctx.probe("slow target skipped")
            return
        if "digest" not in o:
            raise HarnessError(o.get("msg"))
    ctx.log("target", prop, a["digest"], a["extra"], a["rng"])
    for k, v in b["faults"].items():
        ctx.plan(k, v)
        ctx.fault(k, v)
    for k in ("clock", "memory", "gc"):
        if k in env:
            ctx.plan({"clock": "clock jump", "memory": "dirty memory",
                      "gc": "collection schedule"}[k])
            ctx.fault({"clock": "clock jump", "memory": "dirty memory",
                       "gc": "collection schedule"}[k])
    ctx.plan("other hash seed")
    ctx.fault("other hash seed")
    ctx.probe("calls checked for draws", a["checked"])
    for k, v in a["ops"].items():
        ctx.op(k, v)
    ctx.steps += len(a["events"]) + len(b["events"])
    for o in (a, b):
        for cls, msg in o["bad"]:
            raise Violation(cls, msg)
    for k in ("events", "digest", "extra", "rng", "draws", "status", "cls"):
        if a[k] != b[k]:
            raise Violation("differs", "%s %d: %s" % (prop, seed,
                                                      where(a, b, k)))
    if a["events"]:
        ctx.mark(prop, sorted(a["ops"].items()), len(a["events"]))


def where(a, b, k):
    for i, (x, y) in enumerate(zip(a["events"], b["events"])):
        if x != y:
            return "event %d (%s) is not the same after the history" % (
                i, x.split(" ")[0])
    if k == "rng":
        return "the generators end in another state"
    if k in ("status", "cls"):
        return "%s %s alone, %s %s after the history (%s)" % (
            a["status"], a["cls"], b["status"], b["cls"],
            (a["msg"] or b["msg"] or "")[:300])
    return "%s is not the same after the history" % k
