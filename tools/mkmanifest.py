"""Write MANIFEST.json from the modules present in sim/."""
import importlib.util, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mods = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "sim"))
              if re.match(r"p\d\d\.py$", f))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = ("deterministic simulation with fault injection: seeded search over "
        "operation histories, {what}; {oracle}")
T = {
 "P01": ("interruptions, failing allocations and failing kernels at arbitrary source lines", "bitwise snapshots of every operand, earlier result and argument"),
 "P02": ("faults and retries", "refinement against dense arrays"),
 "P03": ("faults and retries", "refinement against dense arrays"),
 "P04": ("thread interleavings at source lines decided by the seed", "comparison with the sequential run of the same calls"),
 "P05": ("random draws (also extreme ones), edits and faults", "structural reference model of rooted trees"),
 "P06": ("reuse of truncators between faults", "error, rank and quasi-optimality bounds from dense singular values"),
 "P07": ("random draws (also extreme ones), faults and retries", "dense equality, storage and progress bounds"),
 "P08": ("random fibres, failing callbacks and retries", "dense black box with a recorded call log"),
 "P09": ("query histories with failing and interrupted evaluations", "direct evaluation with a recorded call log"),
 "P10": ("failing factorisations and solves", "explicit refits and optimality conditions"),
 "P11": ("random initialisations, folds and extreme draws", "recomputed errors of the returned iterates"),
 "P12": ("other histories, failures, hash seeds and processes", "bitwise comparison with a fresh process"),
 "P13": ("recorded and extreme underlying draws", "supports, quantiles and strata"),
 "P14": ("faults and retries", "Python sets of tuples"),
 "P15": ("random candidate points, failing and recovering user functions", "exactness on the span, recorded call log"),
 "P17": ("queries of objects and of their parts cut short or failing between others", "comparison with an untouched twin, snapshots"),
 "P18": ("interruptions, failing allocations and kernels between operations on functions", "refinement against exact multivariate polynomials"),
 "P26": ("reuse of a solver between faults at arbitrary points", "the closed-form minimiser and brute-force leave-one-out refits"),
 "P16": ("faults at arbitrary points of a fit, then the same call again", "bitwise comparison with an undisturbed fresh solver"),
}
LEVEL_NOTE = {
 "default": "Seeded search: no claim beyond the executions explored. All of "
 "tensap runs for real; numpy, scipy and scikit-learn are trusted and atomic "
 "between fault points; oracles are computed independently of tensap."}
NA = {
 "P20": "pure function of its arguments: no scheduling, time, I/O, randomness, fault or history can change a quadrature rule",
 "P21": "pure functions of degree and point: nothing for a scheduler or fault to decide",
 "P22": "pure functions of knots and points: nothing for a scheduler or fault to decide",
 "P23": "pure digit arithmetic: nothing for a scheduler or fault to decide",
 "P25": "needs tensorflow or torch, neither is installed in the sandbox",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i.lower() in mods:
        what, oracle = T[i]
        checks.append({
            "property": i, "quick_cmd": "./chk %s --tier quick" % i,
            "thorough_cmd": "./chk %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.format(what=what, oracle=oracle),
            "level": "exploration",
            "level_note": LEVEL_NOTE.get(i, LEVEL_NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(
            i, "its check is not built yet")})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy, sklearn, networkx\"",
     "hooks": {"guard": "none: all seams are installed from /verif at run time (module attributes and sys.monitoring)",
               "enable": "nothing to enable; /repo is imported as it is", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check is ./chk PROPERTY; VERIF_SEED seeds it. Replay a failure with: PYTHONPATH=/verif /opt/venv/bin/python -m sim.replay FILE"}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
