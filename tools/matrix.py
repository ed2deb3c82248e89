#!/usr/bin/env python3
"""write the table of the planted bugs into DESIGN.md (from seeded/*/meta.json)"""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | check | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m.get("status", "caught"), m["needs"], m["what_it_breaks"]))
s = open(here + "/DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(here + "/DESIGN.md", "w").write(s)
print(len(rows) - 2, "planted bugs")
