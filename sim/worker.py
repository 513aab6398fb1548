"""Worker process: python -m sim.worker MODULE TIER BASE START STRIDE STOP OUT"""
import importlib
import json
import sys


def main():
    mod_name, tier, base, start, stride, stop, out = sys.argv[1:8]
    from . import core
    mod = importlib.import_module("sim." + mod_name)
    prop = mod.PROP
    wall = getattr(mod, "CASE_WALL", 60)
    with open(out, "w") as f:
        for i in range(int(start), int(stop), int(stride)):
            seed = core.case_seed(base, prop, i)
            case = mod.gen(seed, tier)
            o = core.run_case(mod, case, wall=wall)
            o["i"] = i
            o["seed"] = seed
            if o["status"] != "ok":
                o["case"] = case
            if i < 3 * int(stride) and i < 8:
                o["case"] = case
            f.write(json.dumps(o) + "\n")
            f.flush()
            if o["status"] == "violation":
                break
        f.write(json.dumps({"status": "done"}) + "\n")


if __name__ == "__main__":
    main()
