"""Entry point of every check: python -m sim.run PROPERTY [--tier T]

Runs a fixed number of seeded simulated executions (the number depends only
on the tier), each in a worker process; reports the lowest-numbered failing
execution after minimising it and replaying it in a fresh process.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") \
    else sys.executable
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
           MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           MKL_NUM_THREADS="1", TF_CPP_MIN_LOG_LEVEL="3", PYTHONWARNINGS="ignore")

MODULES = {}
for _f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if _f.startswith("p") and _f.endswith(".py") and _f[1:3].isdigit():
        MODULES["P" + _f[1:3]] = _f[:-3]


def sh(args, env=ENV, timeout=None, out=None):
    return subprocess.run(args, cwd=HERE, env=env, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True)


def batch(mod_name, tier, base, n, jobs, wall, first=0):
    """Run cases first..n over `jobs` worker processes."""
    tmp = tempfile.mkdtemp(prefix="simrun-")
    procs, recs, errors = [], [], []
    t0 = time.monotonic()
    try:
        for w in range(jobs):
            out = os.path.join(tmp, "%d.jsonl" % w)
            err = open(os.path.join(tmp, "%d.err" % w), "w")
            procs.append((subprocess.Popen(
                [PY, "-m", "sim.worker", mod_name, tier, str(base),
                 str(first + w), str(jobs), str(n), out], cwd=HERE, env=ENV,
                stdout=subprocess.DEVNULL, stderr=err), out, err))
        for p, out, err in procs:
            left = wall - (time.monotonic() - t0)
            try:
                p.wait(max(left, 1))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                errors.append("worker ran out of wall time")
            err.close()
            done = False
            if os.path.exists(out):
                for line in open(out):
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    if r.get("status") == "done":
                        done = True
                    else:
                        recs.append(r)
            if not done and not any("wall" in e for e in errors):
                errors.append("worker died rc=%s: %s" % (
                    p.returncode, open(err.name).read()[-1500:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    recs.sort(key=lambda r: r["i"])
    return recs, errors, time.monotonic() - t0


def merge(dicts):
    out = {}
    for d in dicts:
        for k, v in (d or {}).items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"]
            if k["property"] == prop and "case" in k]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--n", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t_start = time.monotonic()
    prop = a.prop
    mod_name = MODULES[prop]
    print("check %s tier=%s VERIF_SEED=%d" % (prop, a.tier, a.seed), flush=True)

    # the module is imported here (in this process) for meta data and
    # minimisation; ENV must therefore already be ours
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.execve(PY, [PY, "-m", "sim.run"] + sys.argv[1:],
                  dict(ENV, PYTHONPATH=HERE))
    sys.path.insert(0, HERE)
    from . import core
    mod = importlib.import_module("sim." + mod_name)
    n = a.n or mod.CASES[a.tier]
    wall = {"quick": 780, "thorough": 6 * 3600}[a.tier]
    known = load_known(prop)

    known_lines = []
    viol = None
    pinned = 0
    # pinned cases: past failures (fixed or recorded) are always re-run
    for k in known:
        o = core.run_case(mod, k["case"], wall=120)
        pinned += 1
        if o["status"] == "harness":
            print("ERROR: pinned case failed in the harness:\n" + o["msg"])
            sys.exit(2)
        if k["status"] == "known":
            if o["status"] == "violation" and o["cls"] == k["cls"]:
                known_lines.append("KNOWN-FINDING: property=%s %s"
                                   % (prop, k["what"]))
            elif o["status"] == "violation":
                viol = viol or (k["case"], o, None)
        elif o["status"] == "violation":
            viol = viol or (k["case"], o, None)

    recs, errors, batch_s = batch(mod_name, a.tier, a.seed, n, a.jobs, wall)
    hangs = [r for r in recs if r["status"] == "hang"]
    harness = [r for r in recs if r["status"] == "harness"]
    bad = [r for r in recs if r["status"] == "violation"]
    budget = None
    if viol is None and bad:
        r = bad[0]
        viol = (r["case"], r, r["i"])
    if viol is None and hangs:
        # a run the watchdog stopped: decide it by a step budget instead
        r = hangs[0]
        o = core.run_case(mod, r["case"], budget=core_budget(mod), wall=400)
        if o["status"] == "violation":
            viol = (r["case"], o, r["i"])
            budget = core_budget(mod)
        elif o["status"] != "ok":
            errors.append("hang not decided: %s" % o)

    ev = evidence(prop, mod, a, recs, batch_s, pinned, bad, harness, hangs)
    rc = 0
    for line in known_lines:
        print(line)
    if viol is not None:
        case, o, idx = viol
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        path = os.path.join(HERE, "out", "%s-seed%d.json" % (prop, case["seed"]))
        rec = {"property": prop, "module": mod_name, "verif_seed": a.seed,
               "index": idx, "cls": o["cls"], "msg": o["msg"], "case": case,
               "budget": budget}
        best, best_out, tried = case, o, 0
        if budget is None:
            again = core.run_case(mod, case, wall=120)
            if core.same_failure(again, o):
                best, best_out, tried = core.minimise(mod, case, again)
        rec.update(case=best, cls=best_out["cls"], msg=best_out["msg"],
                   minimiser_runs=tried, original_ops=len(case.get("ops", [])),
                   original_faults=len(case.get("faults", [])),
                   digest=best_out.get("digest"))
        core.dump(rec, path)
        p = sh([PY, "-m", "sim.replay", path, "--quiet"], timeout=600)
        if p.returncode != 1:
            # the failure does not survive a fresh process: fall back to the
            # unminimised case
            rec.update(case=case, cls=o["cls"], msg=o["msg"],
                       digest=o.get("digest"))
            core.dump(rec, path)
            p = sh([PY, "-m", "sim.replay", path, "--quiet"], timeout=600)
        if p.returncode != 1 and idx is not None:
            p = with_prefix(prop, a, idx, rec, path, core) or p
        if p.returncode != 1 and getattr(mod, "UNREPEATABLE", False):
            # the property says that it repeats
            for _ in range(8):
                p = sh([PY, "-m", "sim.replay", path, "--quiet"], timeout=600)
                if p.returncode == 1:
                    break
        if p.returncode == 1:
            last = [json.loads(x) for x in p.stdout.splitlines()
                    if x.startswith("{")][-1]
            print("seed=%s index=%s class=%s" % (case["seed"], idx, rec["cls"]))
            print("  " + (rec["msg"] or "").replace("\n", "\n  ")[:1500])
            print("  minimised: %d ops, %d faults (from %d, %d); replay digest "
                  "%s" % (len(rec["case"].get("ops", [])),
                          len(rec["case"].get("faults", [])),
                          rec["original_ops"], rec["original_faults"],
                          "identical" if last["digest"] == rec["digest"]
                          else "differs"))
            if rec.get("prefix"):
                print("  only after %d earlier execution(s) of the same "
                      "process, which the replay file lists"
                      % len(rec["prefix"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1
        else:
            print("ERROR: violation did not replay: %s\n%s%s" % (
                rec["cls"], p.stdout[-1500:], p.stderr[-1500:]))
            rc = 2
    elif harness:
        print("ERROR: harness failure in case %d seed %d:\n%s" % (
            harness[0]["i"], harness[0]["seed"], harness[0]["msg"]))
        rc = 2
    if errors and rc == 0:
        print("ERROR: " + "\n".join(errors))
        rc = 2
    if rc == 0 and len(recs) != n:
        print("ERROR: %d of %d cases completed" % (len(recs), n))
        rc = 2
    ev["violations"] = 1 if rc == 1 else 0
    ev["wall_s"] = round(time.monotonic() - t_start, 2)
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        core.dump(ev, os.path.join(HERE, "evidence", prop + ".json"))
    c = ev["coverage"]
    print("%s: %d simulated runs, %d distinct non-trivial, %.0f runs/h, faults "
          "%s, %.1fs, exit %d" % (prop, c["evaluations"],
                                  c["distinct_nontrivial"], c["runs_per_hour"],
                                  c["faults_fired"], ev["wall_s"], rc))
    sys.exit(rc)


def with_prefix(prop, a, idx, rec, path, core):
    """The failure needs executions that came before in its process."""
    t0 = time.monotonic()
    seeds = [core.case_seed(a.seed, prop, i)
             for i in range(idx % a.jobs, idx, a.jobs)]
    rec["tier"] = a.tier

    def attempt(prefix):
        rec["prefix"] = prefix
        core.dump(rec, path)
        try:
            p = sh([PY, "-m", "sim.replay", path, "--quiet"], timeout=240)
        except subprocess.TimeoutExpired:
            return None
        if p.returncode != 1:
            return None
        last = [json.loads(x) for x in p.stdout.splitlines()
                if x.startswith("{")][-1]
        rec.update(cls=last["cls"], msg=last["msg"], digest=last["digest"])
        return p

    found = None
    for k in (1, 8, 64, len(seeds)):
        found = attempt(seeds[-k:]) if seeds else None
        if found or k >= len(seeds):
            break
    if not found:
        rec.pop("prefix", None)
        core.dump(rec, path)
        return None
    best = list(rec["prefix"])
    size = max(len(best) // 2, 1)
    while time.monotonic() - t0 < 150:
        for i in range(0, len(best), size):
            cand = best[:i] + best[i + size:]
            p = attempt(cand) if cand else None
            if p:
                best, found = cand, p
                break
            if time.monotonic() - t0 > 150:
                break
        else:
            if size == 1:
                break
            size //= 2
    return attempt(best) or found


def core_budget(mod):
    return getattr(mod, "LINE_BUDGET", 8_000_000)


def evidence(prop, mod, a, recs, batch_s, pinned, bad, harness, hangs):
    sigs = {}
    for r in recs:
        if r.get("sig") and r["status"] != "harness":
            sigs.setdefault(r["sig"], r["i"])
    ok = [r for r in recs if r["status"] == "ok"]
    configs = merge([{r.get("config", "?"): 1} for r in recs])
    samples = [r["case"] for r in recs if r.get("case")
               and r["status"] == "ok"][:3]
    cov = {
        "evaluations": len(recs) + pinned,
        "pinned_cases": pinned,
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": samples or [{"note": "no completed case"}],
        "runs_per_hour": round(3600 * len(recs) / max(batch_s, 1e-9)),
        "seeds_per_hour": round(3600 * len(recs) / max(batch_s, 1e-9)),
        "completed_ok": len(ok),
        "configurations": configs,
        "simulated_time": {
            "unit": "source-line steps of tensap executed under the "
                    "scheduler or line seam (the library has no clock)",
            "steps": sum(r.get("steps", 0) for r in recs),
            "events": sum(r.get("events", 0) for r in recs)},
        "random_draws": sum(r.get("draws", 0) for r in recs),
        "faults_configured": merge(r.get("planned") for r in recs),
        "faults_fired": merge(r.get("faults") for r in recs),
        "operations_completed": merge(r.get("ops") for r in recs),
        "rare_conditions_reached": merge(r.get("probes") for r in recs),
        "distinctness_measure": getattr(
            mod, "MEASURE", "number of distinct run signatures (operation "
            "sequence with operand formats, configuration and fired faults)"),
        "real_code": getattr(mod, "REAL", "tensap (all of it), numpy, scipy"),
        "stubs": getattr(mod, "STUBS", "numpy.random/random draws pass "
                         "through the seeded seam; numpy.linalg through the "
                         "kernel seam; user callbacks are simulated"),
        "hangs_examined": len(hangs),
        "harness_errors": len(harness),
        "workers": a.jobs,
    }
    return {"property": prop, "tier": a.tier if a.tier in
            ("quick", "thorough") else "quick", "seed": a.seed,
            "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
            "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": 0.0,
            "violations": 0}


if __name__ == "__main__":
    main()
