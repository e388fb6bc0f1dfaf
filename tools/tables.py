"""Rewrites the tables of repaired defects and planted bugs in DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
fx = ["| %s | %s (%s) |" % (f["property"], re.sub(r"^fixed: property=\S+ \S+ ", "", f["what"]), f["commit"]) for f in sorted(json.load(open(os.path.join(H, "known_findings.json")))["findings"], key=lambda f: f["property"])]
sd = []
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    sd.append("| %s: needs %s | %s |" % (d, m["needs"], m["property"]))
for tag, head, rows in (("fixes", "property | what failed", fx), ("seeded", "planted bug | caught by", sd)):
    s = re.sub(r"(?s)<!-- %s -->.*?<!-- /%s -->" % (tag, tag), lambda m: "<!-- %s -->\n\n| %s |\n|---|---|\n%s\n\n<!-- /%s -->" % (tag, head, "\n".join(rows), tag), s)
open(p, "w").write(s)
