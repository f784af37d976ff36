#!/usr/bin/env python3
"""Fill the generated tables of DESIGN.md (between <!-- NAME --> and <!-- /NAME -->)."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | needs | breaks |", "|----|----|----|----|"]
for m in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"], d["what_it_breaks"]))
p = HERE + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- SEEDS -->\n).*?(<!-- /SEEDS -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), s, flags=re.S)
open(p, "w").write(s)
