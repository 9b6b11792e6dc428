"""Regenerates MANIFEST.json: every property with a checks/<id>.py is claimed."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = ("Generated-input search on the real code, rebuilt from the working tree on every run; no violation among the generated cases "
        "is evidence, not proof. Oracles are independent re-derivations (ref/, or inside the check). ")
EXTRA = {}
exec(open(os.path.join(H, "notes", "techniques.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "checks", i + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                           technique="property-based testing: " + TECH[i], level="exploration", level_note=NOTE + EXTRA.get(i, "")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 vlib/build.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo. Known findings: known_findings.json. Design: DESIGN.md."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
