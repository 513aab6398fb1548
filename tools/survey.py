"""Development aid: run many cases, group the outcomes by class.

usage: survey.py PROP N [START] [TIER]
"""
import collections, importlib, json, multiprocessing as mp, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PROP, N = sys.argv[1], int(sys.argv[2])
START = int(sys.argv[3]) if len(sys.argv) > 3 else 0
TIER = sys.argv[4] if len(sys.argv) > 4 else "quick"


def work(w):
    from sim import core, run
    mod = importlib.import_module("sim." + run.MODULES[PROP])
    out = []
    import time
    for i in range(START + w, START + N, 8):
        s = core.case_seed(1, PROP, i)
        c = mod.gen(s, TIER)
        t = time.time()
        o = core.run_case(mod, c, wall=getattr(mod, "CASE_WALL", 60))
        out.append((i, o["status"], o["cls"], o["msg"], o["ops"], o["faults"],
                    o["planned"], o["probes"], time.time() - t))
    return out


if __name__ == "__main__":
    with mp.Pool(8) as p:
        res = sorted(sum(p.map(work, range(8)), []))
    cl = collections.Counter((r[1], r[2]) for r in res)
    for k, v in cl.most_common():
        first = [r for r in res if (r[1], r[2]) == k][0]
        print(v, k, "first", first[0], "" if k[0] == "ok" else
              "\n      " + str(first[3])[-700:])
    for j, n in ((4, "ops"), (5, "faults"), (6, "planned"), (7, "probes")):
        c = collections.Counter()
        for r in res:
            c.update(r[j])
        print(n, dict(sorted(c.items())))
    ts = sorted((r[8], r[0]) for r in res)
    print("time total %.1f max %s median %.3f" % (
        sum(t for t, _ in ts), ts[-3:], ts[len(ts) // 2][0]))
