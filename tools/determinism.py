"""Same seeds, same executions: digests of N cases of every check, run by one
worker, by eight, and with another hash seed.

/opt/venv/bin/python tools/determinism.py [N] [PROP..]
"""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.chdir(V)
from sim import run                                         # noqa: E402


def digests(mod, n, jobs, hashseed):
    run.ENV["PYTHONHASHSEED"] = hashseed
    run.ENV["PYTHONPATH"] = V
    recs, errors, _ = run.batch(mod, "quick", 1, n, jobs, 3600)
    assert not errors, errors
    return {r["i"]: (r["status"], r["digest"], r["steps"], r["draws"])
            for r in recs}


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 100
    bad = 0
    for prop, mod in sorted(run.MODULES.items()):
        if len(sys.argv) > 2 and prop not in sys.argv[2:]:
            continue
        a = digests(mod, n, 1, "0")
        for jobs, h in [(8, "0"), (8, "5"), (3, "77")]:
            b = digests(mod, n, jobs, h)
            d = [i for i in a if a[i] != b.get(i)]
            bad += len(d)
            print(prop, "%d cases, %d workers, hash seed %s: %s" % (
                len(a), jobs, h, "identical" if not d else "DIFFER %s %s %s" % (
                    d[:10], a[d[0]], b.get(d[0]))), flush=True)
    sys.exit(bad > 0)


if __name__ == "__main__":
    main()
