"""Plant bugs in scratch copies: plant.py RECIPES.py [ID ...]

A recipe file defines BUGS = [dict(id, prop, file, edits=[(old, new)], demo,
needs, breaks)]. For each: make the patch against /repo's HEAD, confirm in a
scratch copy that it builds, that the stable tests pass, that the demo passes
on /repo and fails with the patch; write /verif/seeded/ID. Then run the
property's quick check on the copy and print whether it reports it.
--check only: run the checks of planted bugs again.
"""
import json, os, shutil, subprocess, sys, textwrap

V = "/verif"
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
           MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           MPLCONFIGDIR="/tmp/w/mpl")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=ENV, timeout=1800):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def scratch(i):
    d = "/tmp/plant-%s" % i
    if os.path.isdir(d):
        shutil.rmtree(d)
    sh(["cp", "-a", "/repo", d])
    sh("git checkout -q -- .", d)
    return d


def tests(d):
    rep = d + "-rep"
    T = "test/test_tutorials.py::test_tutorial"
    A = "tutorials/approximation"
    rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8",
                  "--timeout=400", "-W", "ignore", "-p", "randomly",
                  "--randomly-seed=0", "--randomly-dont-reorganize",
                  "--deselect", T + "[%s/tutorial_tensor_learning_tensorized_function_learning.py]" % A,
                  "--deselect", T + "[%s/tutorial_tensor_learning_TreeBasedTensorDensityLearning.py]" % A,
                  "-o", "junit_family=xunit2", "--junitxml=%s/t.xml" % rep,
                  "test"], d, dict(ENV, PYTHONPATH=d))
    rc2, _ = sh(["/usr/bin/python3", "/opt/vp/results.py", rep + "/o.json",
                 "junit:%s/*.xml" % rep])
    got = json.load(open(rep + "/o.json"))
    shutil.rmtree(rep)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [s for s in stable if s not in got["passed"]]


def demo(folder, cwd):
    return sh(["sh", folder + "/demo.sh"], cwd, timeout=300)


def make(b):
    d = scratch(b["id"])
    try:
        files = b["file"]
        for old, new, *f in b["edits"]:
            path = os.path.join(d, f[0] if f else files)
            s = open(path).read()
            if s.count(old) != 1:
                return "edit matches %d times: %r" % (s.count(old), old[:80])
            open(path, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", d)
        rc, out = sh([PY, "-m", "compileall", "-q", "tensap"], d)
        if rc:
            return "does not compile: " + out
        f = os.path.join(V, "seeded", b["id"])
        os.makedirs(f, exist_ok=True)
        open(f + "/patch.diff", "w").write(diff)
        open(f + "/demo.py", "w").write(textwrap.dedent(b["demo"]).lstrip())
        open(f + "/demo.sh", "w").write(
            '#!/bin/sh\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
            'MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 exec /opt/venv/bin/python '
            '-W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["prop"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]},
                  open(f + "/meta.json", "w"), indent=1)
        rc, out = demo(f, "/repo")
        if rc:
            return "demo fails on the clean tree: " + out[-800:]
        rc, out2 = demo(f, d)
        if rc == 0:
            return "demo passes with the patch: " + out2[-500:]
        if "--notest" not in sys.argv:
            miss = tests(d)
            if miss:
                return "tests fail: %s" % miss
        return "PLANTED; " + check(b["id"], b["prop"], d)
    finally:
        if "--keep" not in sys.argv:
            shutil.rmtree(d, ignore_errors=True)


def check(i, prop, d, extra=()):
    rc, out = sh(["./chk", prop, "--tier", "quick", "--no-evidence", *extra], V,
                 dict(ENV, VERIF_REPO=d))
    v = [x for x in out.splitlines() if "seed=" in x or "VIOL" in x
         or "ERROR" in x or "simulated runs" in x]
    return "check rc=%d %s" % (rc, " | ".join(v[-4:])[:600])


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--check" in sys.argv:
        ids = args or sorted(os.listdir(V + "/seeded"))
        for i in ids:
            m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
            d = scratch(i)
            rc, out = sh(["git", "apply", "%s/seeded/%s/patch.diff" % (V, i)], d)
            print(i, m["property"], out if rc else check(i, m["property"], d),
                  flush=True)
            shutil.rmtree(d)
        return
    ns = {}
    exec(open(args[0]).read(), ns)
    for b in ns["BUGS"]:
        if len(args) > 1 and b["id"] not in args[1:]:
            continue
        print(b["id"], b["prop"], make(b), flush=True)


main()
