#!/usr/bin/env python3
"""seedcheck.py ID [--no-tests] [--checks C01,C02]: confirm a planted bug in a scratch copy of /repo.

Applies seeded/ID/patch.diff to a copy, runs the repository's tests there, the demonstration with and
without the patch, and the checks named (default: the one of meta.json) against the copy."""
import json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
sid = sys.argv[1]
d = os.path.join(V, "seeded", sid)
meta = json.load(open(os.path.join(d, "meta.json")))
checks = [meta["property"]]
if "--checks" in sys.argv:
    checks = sys.argv[sys.argv.index("--checks") + 1].split(",")
tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
repo = tmp + "/repo"
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1")
res = {"id": sid}
try:
    shutil.copytree("/repo", repo, symlinks=True)
    shutil.copytree(d, tmp + "/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))

    def demo():
        return subprocess.run(["bash", tmp + "/demo/demo.sh"], cwd=repo, env=dict(env, PYTHONPATH=repo),
                              capture_output=True, timeout=300)
    r0 = demo()
    res["demo_clean"] = r0.returncode
    if r0.returncode:
        print(r0.stdout.decode()[-500:], r0.stderr.decode()[-800:])
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=repo, check=True)
    r1 = demo()
    res["demo_patched"] = r1.returncode
    if "--no-tests" not in sys.argv:
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--tb=line", "--timeout=300",
                        "-n", os.environ.get("SEED_N", "4"), "-o", "junit_family=xunit2",
                        "--junitxml=" + tmp + "/j.xml"], cwd=repo, env=env, capture_output=True)
        subprocess.run([PY, "/opt/vp/results.py", tmp + "/o.json", "junit:" + tmp + "/j.xml"],
                       capture_output=True)
        got = json.load(open(tmp + "/o.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        missing = sorted(set(stable) - set(got["passed"]))
        res["tests_broken"] = len(missing)
        res["eg"] = missing[:3]
    for c in checks:
        r = subprocess.run([V + "/run.sh", c, "quick"], env=dict(env, VERIF_REPO=repo), capture_output=True)
        out = r.stdout.decode()
        res[c] = r.returncode
        if "-v" in sys.argv:
            print(out[-1500:], r.stderr.decode()[-500:])
finally:
    shutil.rmtree(tmp)
print(json.dumps(res))
