"""Development tool: try a planted bug in a scratch copy of /repo.

  try_bug.py ID... [--no-tests] [--no-check] [--all-checks]
Checks that the patch applies, builds, passes the stable tests, that the demonstration tells the trees apart, and
reports whether the quick check of the property catches it."""
import json
import os
import shutil
import subprocess
import sys
import time
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("SEED", os.path.join(HERE, "seeded"))
ENV = {**os.environ, "PATH": "/opt/venv/bin:" + os.environ["PATH"], "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
       "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "BLIS_NUM_THREADS": "1", "CUDA_VISIBLE_DEVICES": ""}


def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def one(bug, tests, check, props=None):
    d = os.path.join(SEEDED, bug)
    meta = json.load(open(d + "/meta.json"))
    prop = meta["property"]
    res = {"bug": bug, "property": prop}
    copy = f"/tmp/pb/{bug}/repo"
    shutil.rmtree(f"/tmp/pb/{bug}", ignore_errors=True)
    os.makedirs(f"/tmp/pb/{bug}")
    shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns("run.*"))
    shutil.copytree(d, f"/tmp/pb/{bug}/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    demo = f"/tmp/pb/{bug}/demo/demo.sh"
    try:
        rc, out = sh(["bash", demo], copy)
        res["demo_clean"] = rc
        if rc != 0:
            res["out"] = out[-1500:]
            return res
        rc, out = sh(["git", "apply", "--check", d + "/patch.diff"], copy)
        if rc != 0:
            res["apply"] = out[-500:]
            return res
        sh(["git", "apply", d + "/patch.diff"], copy)
        if ".pyx" in open(d + "/patch.diff").read() or ".hh" in open(d + "/patch.diff").read():
            rc, out = sh("rm -f thinc/backends/*.cpp thinc/layers/*.cpp; python setup.py build_ext --inplace -j 4", copy)
            if rc != 0:
                res["build"] = out[-2000:]
                return res
        rc, out = sh(["bash", demo], copy)
        res["demo_bug"] = rc
        res["demo_out"] = out[-300:]
        if rc == 0:
            return res
        if check:
            for p in props or [prop]:
                t0 = time.time()
                rc, out = sh(["python3", "run.py", "--property", p, "--tier", "quick", "--no-build", "--no-evidence", "--seed", "1"], HERE,
                             {**ENV, "THINC_SIM_REPO": copy}, 1200)
                res[f"check_{p}"] = rc
                res[f"check_{p}_s"] = round(time.time() - t0)
                res[f"check_{p}_out"] = [x[:400] for x in out.splitlines() if x.startswith(("violation", "VIOLATION", "  minimised", "harness"))][:4]
        if tests:
            rc, out = sh("python -m pytest -q -p no:cacheprovider -p vp_seed --hypothesis-seed=0 -n 8 --dist worksteal --timeout=400 "
                         f"-o junit_family=xunit2 --junitxml=/tmp/pb/{bug}/j.xml thinc/tests", copy, {**ENV, "PYTHONPATH": "/opt/vp/plugin",
                         "TMPDIR": f"/tmp/pb/{bug}", "HYPOTHESIS_STORAGE_DIRECTORY": f"/tmp/pb/{bug}/h"})
            bad = []
            for tc in ET.parse(f"/tmp/pb/{bug}/j.xml").getroot().iter("testcase"):
                if tc.find("failure") is not None or tc.find("error") is not None:
                    bad.append(tc.get("name"))
            res["tests_failed"] = bad[:10]
            res["tests"] = out.splitlines()[-1] if out else ""
        return res
    finally:
        shutil.rmtree(f"/tmp/pb/{bug}", ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    flags = {a for a in sys.argv[1:] if a.startswith("--")}
    bugs = args or sorted(os.listdir(SEEDED))
    for b in bugs:
        r = one(b, "--no-tests" not in flags, "--no-check" not in flags)
        with open("/tmp/try_bug.jsonl", "a") as f:
            f.write(json.dumps(r) + "\n")
        print(json.dumps(r, indent=1), flush=True)


main()
