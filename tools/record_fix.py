"""record_fix.py PROPERTY COMMIT WHAT... : append a repaired defect to known_findings.json."""
import json, os, sys
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(F))
n = 1 + max(int(x["id"][1:]) for x in k if x["id"][0] == "F")
pid, commit, what = sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])
k.append({"id": "F%02d" % n, "property": pid, "status": "fixed", "commit": commit, "what": "fixed: property=%s %s %s" % (pid, commit, what)})
json.dump(k, open(F, "w"), indent=1)
print("F%02d" % n)
