"""Development helper: runs the quick checks against planted bugs. trybugs.py [ids...] (default: all), each with its property's check,
or with --all every check. The tree is a copy (VP_REPO), so /repo stays as it is."""
import json
import os
import shutil
import subprocess
import sys

SEED = "/verif/seeded"
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(SEED))
for i in ids:
    meta = json.load(open(f"{SEED}/{i}/meta.json"))
    tree = f"/tmp/try_{os.getpid()}"
    vf = f"/tmp/tryv_{os.getpid()}"
    shutil.rmtree(tree, ignore_errors=True)
    shutil.rmtree(vf, ignore_errors=True)
    shutil.copytree("/repo", tree, symlinks=True)
    shutil.copytree("/verif", vf, symlinks=True, ignore=shutil.ignore_patterns("seeded", "evidence", ".git"))
    os.makedirs(vf + "/evidence")
    r = subprocess.run(["git", "apply", f"{SEED}/{i}/patch.diff"], cwd=tree, capture_output=True, text=True)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stderr[:200])
        continue
    pids = [meta["property"]] if "--all" not in sys.argv else [f"C{n:02d}" for n in range(1, 19)]
    for p in pids:
        r = subprocess.run(["bash", "run.sh", p, "quick"], cwd=vf, capture_output=True, text=True, env={**os.environ, "VP_REPO": tree, "VERIF_SEED": "1"})
        v = [l for l in r.stdout.split("\n") if l.startswith(("VIOLATION", "violation"))]
        print(i, p, "exit", r.returncode, "CAUGHT" if any(l.startswith("VIOLATION property=" + p) for l in v) else "missed", [l[:140] for l in v if "nofail" not in l][:4], flush=True)
        if "-o" in sys.argv:
            print(r.stdout[-3000:], r.stderr[-500:])
    shutil.rmtree(tree, ignore_errors=True)
    shutil.rmtree(vf, ignore_errors=True)
