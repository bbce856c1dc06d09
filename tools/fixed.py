"""python tools/fixed.py PROP COMMIT 'what failed'   append a repaired defect to known_findings.json"""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
d.append(dict(property=prop, status="fixed", commit=commit, what=f"fixed: property={prop} {commit} {what}"))
json.dump(d, open(p, "w"), indent=1)
