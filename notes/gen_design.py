"""DESIGN.md = notes/design_head.md + findings (known_findings.json) + seeded-bug table (notes/seed_results.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + "/notes/design_head.md").read().rstrip()]
k = json.load(open(V + "/known_findings.json"))
out.append("\n## Findings on the pinned tree\nRepaired (`fix:` commits):\n")
out += ["- %s" % e for e in k["fixed"]]
out.append("\nRecorded, not repaired:\n")
out += ["- %s `%s`: %s" % (e["property"], e["key"], e["what"]) for e in k["findings"]]
r = json.load(open(V + "/notes/seed_results.json"))
out.append("\n## Planted bugs (`seeded/`)\nEach keeps the baseline tests green; \"caught\" = the quick check of its property exits 1.\n\n| change | property | caught | needs |\n|---|---|---|---|")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], r.get(d, "?"), m["needs"]))
out.append("\n" + open(V + "/notes/design_tail.md").read().rstrip())
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
