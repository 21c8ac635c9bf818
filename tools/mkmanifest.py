"""Writes MANIFEST.json from the table below (claimed checks)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
T = {}
exec(open(os.path.join(ROOT, "tools", "checks.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t = T[i]
        checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python checks/run.py {i}",
                       "thorough_cmd": f"/opt/venv/bin/python checks/run.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t[1], "level": t[0], "level_note": t[2]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python checks/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check observes the public API of the working tree. Specifications in spec/ (TLA+, TLC), drivers in harness/, design in DESIGN.md, findings in known_findings.jsonl."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
