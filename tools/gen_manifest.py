"""Writes MANIFEST.json (run by hand; committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(ROOT, "tools", "claimed.json")))
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": "contract-based deductive verification of the extracted source (Verus/Z3)", "level": "proof",
                       "level_note": CLAIMED[i]})
na = [{"property": i, "reason": NA.get(i, "no check for it yet")} for i in ids if i not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
           "notes": "The checks need no hooks in /repo. See DESIGN.md."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
