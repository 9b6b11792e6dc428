"""fix.py PID COMMIT TEXT: append a fixed line; finding.py style: `fix.py --finding PID KEY TEXT`."""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
if sys.argv[1] == "--finding":
    d["findings"].append(dict(property=sys.argv[2], key=sys.argv[3], what=sys.argv[4]))
else:
    d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
