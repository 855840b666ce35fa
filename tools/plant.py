"""Development helper: plants a bug (edits of /repo) as /verif/seeded/<id>, after confirming it in a scratch copy.

plant(id, property, needs, breaks, [(file, old, new)...], demo)   demo: python text run with cwd = the tree; must exit 0 / nonzero.
"""
import json
import os
import shutil
import subprocess
import sys

SEED = "/verif/seeded"
RUN = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def plant(id, prop, needs, breaks, edits, demo):
    tree = f"/tmp/plant_{os.getpid()}"
    shutil.rmtree(tree, ignore_errors=True)
    shutil.copytree("/repo", tree, symlinks=True)
    d = os.path.join(SEED, id)
    try:
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(demo)
        open(d + "/demo.sh", "w").write(RUN)
        os.chmod(d + "/demo.sh", 0o755)
        r = sh(f"bash {d}/demo.sh", cwd=tree)
        if r.returncode:
            print(id, "FAIL: demo fails on the unchanged tree:", r.stdout[-300:], r.stderr[-600:])
            shutil.rmtree(d)
            return
        for f, old, new in edits:
            p = os.path.join(tree, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "FAIL: edit matches", s.count(old), "times:", old[:60])
                shutil.rmtree(d)
                return
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=tree).stdout
        # removed lines have to be original ones
        for f in {e[0] for e in edits}:
            bl = sh(f"git blame -s {f}", cwd="/repo").stdout.split("\n")
            removed = [l[1:] for l in sh(f"git diff -U0 {f}", cwd=tree).stdout.split("\n") if l.startswith("-") and not l.startswith("---")]
            for l in removed:
                hits = [b for b in bl if b.split(") ", 1)[-1] == l]
                if l.strip() and hits and not any("8f8d635" in b[:9] for b in hits):
                    print(id, "WARNING: not an original line:", l)
        t = sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -3", cwd=tree, env={**os.environ, "PYTHONPATH": tree, "PYTHONDONTWRITEBYTECODE": "1"})
        if "failed" in t.stdout or "error" in t.stdout or "passed" not in t.stdout:
            print(id, "FAIL: tests", t.stdout)
            shutil.rmtree(d)
            return
        r = sh(f"timeout 250 bash {d}/demo.sh", cwd=tree)
        if r.returncode == 0:
            print(id, "FAIL: demo passes with the change", r.stdout[-300:])
            shutil.rmtree(d)
            return
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        print(id, "ok:", (r.stdout + r.stderr).strip().split("\n")[-1][:150])
    finally:
        shutil.rmtree(tree, ignore_errors=True)
