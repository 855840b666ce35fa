"""Writes MANIFEST.json (run by hand after changing the list of checks)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PIDS = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(HERE, "levels.json")))
checks = []
for p in PIDS:
    if not os.path.exists(os.path.join(HERE, "checks", p + ".py")):
        continue
    n = NOTE.get(p, {})
    checks.append({
        "property": p, "quick_cmd": f"bash run.sh {p} quick", "thorough_cmd": f"bash run.sh {p} thorough",
        "technique": n.get("technique", "contract-based deductive verification (VCs from the current source, z3/cvc5) + bounded contract check"),
        "level": n.get("level", "other"), "level_note": n["note"],
    })  # fmt: skip
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": []}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
