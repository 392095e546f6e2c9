"""tools/addfix.py PROPERTY COMMIT text: record a repaired defect"""
import json, sys
p = __file__.rsplit("/", 2)[0] + "/known_findings.json"
l = json.load(open(p))
pid, c, t = sys.argv[1:4]
if not any(e.get("commit") == c for e in l):
    l.insert(0, dict(property=pid, status="fixed", commit=c, what="fixed: property=%s %s %s" % (pid, c, t)))
json.dump(l, open(p, "w"), indent=1)
