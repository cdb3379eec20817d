"""fixed.py PROPERTY COMMIT WHAT: record a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, com, what = sys.argv[1:4]
if not any(e.get("commit") == com for e in d["findings"]):
    d["findings"].append(dict(property=prop, status="fixed", commit=com, entry="fixed: property=%s %s %s" % (prop, com, what)))
json.dump(d, open(p, "w"), indent=1)
