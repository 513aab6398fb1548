"""Replay one recorded case: python -m sim.replay FILE [--quiet]

Exit 1 and a VIOLATION line if it fails, 0 if it passes, 2 on errors.
"""
import importlib
import json
import sys


def main():
    path = sys.argv[1]
    rec = json.load(open(path))
    from . import core
    mod = importlib.import_module("sim." + rec["module"])
    # executions of the same process that came before, when they matter
    for seed in rec.get("prefix", []):
        core.run_case(mod, mod.gen(seed, rec["tier"]), wall=60)
    o = core.run_case(mod, rec["case"], trace="--quiet" not in sys.argv,
                      budget=rec.get("budget"), wall=None)
    for line in o.get("trace") or []:
        print("  ", line)
    print(json.dumps({k: o[k] for k in ("status", "cls", "digest", "msg")}))
    if o["status"] == "violation":
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        sys.exit(1)
    sys.exit(0 if o["status"] == "ok" else 2)


if __name__ == "__main__":
    main()
