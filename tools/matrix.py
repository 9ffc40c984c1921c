"""
Development tool (no check uses it): run the quick check of every planted bug's property (and of the properties given as
further arguments to a bug in ALSO) against a scratch copy with the bug, and write the table tools/planted/results.md.

  tools/matrix.py [id ...]       (without ids: all of seeded/; with ids: these lines are replaced)
"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "tools", "planted", "results.md")
ALSO = {"c16-linear-alias": ["C20"], "c20-safe-power-in-place": ["C15"], "c21-shape-broadcast": ["C12"]}


def one(b):
    t = "/tmp/matrix/" + b
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C " + t, shell=True, check=True)
        if subprocess.run(["git", "apply", os.path.join(ROOT, "seeded", b, "patch.diff")], cwd=t).returncode:
            return b, "PATCH DOES NOT APPLY", ""
        meta = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
        caught, missed, first = [], [], ""
        for c in [meta["property"]] + ALSO.get(b, []):
            p = subprocess.run([os.path.join(ROOT, "check"), c, "quick"], cwd=ROOT, capture_output=True, text=True,
                               env=dict(os.environ, TI_REPO=t, TI_OUT=t + ".out", TI_JOBS="3"))
            ok = p.returncode == 1 and "VIOLATION property=" + c in p.stdout
            (caught if ok else missed).append(c)
            if ok and not first:
                ls = p.stdout.splitlines()
                i = next(i for i, x in enumerate(ls) if "VIOLATION" in x)
                first = " ".join(ls[i + 1:i + 2]).strip().split("{")[0].strip()
        return b, ", ".join(caught) or "MISSED", ("missed by " + ", ".join(missed) if missed else "") + (" harness " + first if first else "")
    finally:
        shutil.rmtree(t, ignore_errors=True)
        shutil.rmtree(t + ".out", ignore_errors=True)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    rows = {}
    if os.path.exists(OUT) and sys.argv[1:]:
        for l in open(OUT):
            m = re.match(r"\| ([^|]+) \| ([^|]+) \| ([^|]*) \| ([^|]*) \|", l)
            if m and m.group(1) != "bug":
                rows[m.group(1)] = l.rstrip("\n")
    with ThreadPoolExecutor(4) as ex:
        for b, c, f in ex.map(one, ids):
            meta = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
            rows[b] = "| %s | %s | %s | %s |" % (b, c, f.strip(), meta["needs"].replace("|", "/"))
            print(rows[b], flush=True)
    rows = {b: r for b, r in rows.items() if os.path.isdir(os.path.join(ROOT, "seeded", b))}
    with open(OUT, "w") as fh:
        fh.write("| bug | caught by (quick) | where | needs |\n|---|---|---|---|\n" + "\n".join(rows[b] for b in sorted(rows)) + "\n")


if __name__ == "__main__":
    main()
