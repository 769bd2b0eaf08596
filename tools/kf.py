"""Records a repaired defect: kf.py PROPERTY COMMIT WHAT"""
import json, sys
p = "known_findings.json"
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
d["findings"].append({"property": prop, "status": "fixed", "keys": [], "what": f"fixed: property={prop} {commit} {what}"})
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
