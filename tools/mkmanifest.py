"""Writes MANIFEST.json for the properties which have a check module."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "checks", i.lower() + ".py")):
        checks.append(dict(
            property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            technique=TECH[i], level="exploration",
            level_note="Runtime monitoring: sound for the executions observed; no claim beyond the workloads generated (see DESIGN.md).",
        ))
    else:
        na.append(dict(property=i, reason="no check yet (work in progress)"))
m = dict(
    version=1, setup_cmd="./setup.sh", checks=checks,
    hooks=dict(guard="VERIF_HOOKS", enable="VERIF_HOOKS=1 (no hooks in /repo are needed: the monitors are put around the real code from outside)", source_commits=[]),
    not_applicable=na, notes="See DESIGN.md.",
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
