"""Writes /verif/MANIFEST.json from the unit table and the properties."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C29": "The script is bash; no deductive program verifier for shell scripts is installed, so contracts on it cannot be discharged."}
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": units.technique(i),
        "level": units.LEVEL.get(i, "other"),
        "level_note": units.note(i),
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: harnesses are appended to a mechanically extracted copy of the sources on every run (see DESIGN.md). Known findings: KNOWN_FINDINGS."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
