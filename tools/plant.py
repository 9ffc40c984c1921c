"""
Development tool (no check uses it): build, validate and judge planted bugs described in a python file.

  tools/plant.py SPECS.py [id ...]      SPECS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]

For every bug: a scratch copy of /repo's HEAD gets the edits; the stable tests are run there; demo.py is run on the clean
and on the changed tree; when all of that is as required the bug is written to seeded/<id>/ and the property's quick check is
run against the changed tree.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="")
DEMO_SH = """#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds for this case
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES= PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(ENV)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def original_lines(tree, patch):
    """every removed line must exist in the original repository (not one of our own fix commits)"""
    bad = []
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    cur = None
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            cur = subprocess.run(["git", "-C", "/repo", "show", base + ":" + line[6:]], capture_output=True, text=True).stdout.splitlines()
        elif line.startswith("-") and not line.startswith("---") and line[1:].strip() and line[1:] not in cur:
            bad.append(line)
    return bad


def one(b, jobs):
    t = "/tmp/plant/" + b["id"]
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    subprocess.run("git -C /repo archive HEAD | tar -x -C " + t, shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, cwd=t, check=True)
    try:
        for f, old, new in b["edits"]:
            s = open(os.path.join(t, f)).read()
            if s.count(old) != 1:
                return b["id"], "EDIT matches %d times in %s: %r" % (s.count(old), f, old[:60])
            open(os.path.join(t, f), "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True).stdout
        bad = original_lines(t, patch)
        if bad:
            return b["id"], "touches lines of our own commits: %r" % bad
        d = os.path.join(ROOT, "seeded", b["id"])
        tmpd = t + ".demo"
        os.makedirs(tmpd, exist_ok=True)
        open(os.path.join(tmpd, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(tmpd, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(tmpd, "demo.sh"), 0o755)
        rc0, o0 = sh(["bash", os.path.join(tmpd, "demo.sh")], "/repo")
        if rc0 != 0:
            return b["id"], "DEMO fails on the clean tree: " + o0[-400:]
        rc1, o1 = sh(["bash", os.path.join(tmpd, "demo.sh")], t)
        if rc1 == 0:
            return b["id"], "DEMO passes on the changed tree"
        rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rA", "--continue-on-collection-errors",
                    "--ignore=tests/test_edges.py", "--ignore=tests/test_metrics.py", "--ignore=tests/test_pooling.py"], t,
                   {"PYTHONPATH": t})
        failed = [x for x in o.splitlines() if x.startswith(("FAILED", "ERROR", "SUBFAIL"))]
        npass = sum(x.startswith("PASSED") for x in o.splitlines())
        if failed or npass < len(BASE):
            return b["id"], "TESTS catch it (%d passed): %s" % (npass, failed[:3])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(tmpd, f), d)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(tmpd)
        t0 = time.time()
        res = []
        for c in [b["property"]] + b.get("also", []):
            rc, o = sh([os.path.join(ROOT, "check"), c, "quick"], ROOT, {"TI_REPO": t, "TI_OUT": t + ".out", "TI_JOBS": str(jobs)})
            v = [x for x in o.splitlines() if "VIOLATION" in x or "ERROR" in x]
            res.append("%s rc=%d %s" % (c, rc, (v[0][:80] if v else o[-200:].strip())))
            lines = o.splitlines()
            if rc == 1:
                i = next(i for i, x in enumerate(lines) if "VIOLATION" in x)
                res.append("    " + " ".join(lines[i + 1:i + 2])[:260])
        return b["id"], "demo: %s\n   %s (%.0f s)" % (o1.strip().splitlines()[-1][:150] if o1.strip() else "", "\n   ".join(res), time.time() - t0)
    finally:
        shutil.rmtree(t, ignore_errors=True)
        shutil.rmtree(t + ".out", ignore_errors=True)
        shutil.rmtree(t + ".demo", ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("specs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    bugs = [b for b in m.BUGS if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(lambda b: one(b, 4), bugs):
            print("==", i, "\n  ", r, flush=True)


if __name__ == "__main__":
    main()
