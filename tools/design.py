"""fill the generated parts of DESIGN.md (kept between markers)"""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(H, "DESIGN.md")
s = open(f).read()
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["property"]))
na = json.load(open(os.path.join(H, "MANIFEST.json")))["not_applicable"]
nas = []
for x in na:
    i = x.get("property") or x.get("id") or x.get("property_id")
    if i not in ("C21", "C22", "C23", "C24"):
        nas.append("%s: %s" % (i, x["reason"]))
def put(mark, text):
    global s
    a, b = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
    if "@@%s@@" % mark in s:
        s = s.replace("@@%s@@" % mark, a + "\n" + text + "\n" + b)
    else:
        s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: a + "\n" + text + "\n" + b, s, flags=re.S)
put("SEEDS", "\n".join(rows))
put("UNCLAIMED", "\n\n".join(nas))
open(f, "w").write(s)
