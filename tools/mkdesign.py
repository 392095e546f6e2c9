"""Fill the generated lists of DESIGN.md (between the markers) from known_findings.json and seeded/*/meta.json."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
kf = json.load(open(os.path.join(root, "known_findings.json")))
fx = []
for e in sorted(kf, key=lambda e: e["property"]):
    w = re.sub(r"^fixed: property=\S+ \S+ ", "", e["what"])
    fx.append("* %s, %s: %s" % (e["property"], ("`%s`" % e["commit"]) if e.get("commit") else "recorded, not repaired", w))
sd = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    sd.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
for tag, lines in (("FIXES", fx), ("SEEDS", sd)):
    body = "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, "\n".join(lines), tag)
    if "@%s@" % tag in s:
        s = s.replace("@%s@" % tag, body)
    else:
        s = re.sub(r"<!-- %s -->.*<!-- /%s -->" % (tag, tag), lambda _: body, s, flags=re.S)
open(p, "w").write(s)
