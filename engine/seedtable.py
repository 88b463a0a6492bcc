"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | caught by | what |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s; needs %s |" % (
        os.path.basename(os.path.dirname(f)), m["property"],
        m.get("caught_by", m["property"]), m["what_it_breaks"], m["needs"]))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"(<!-- seeds -->\n).*?(\n<!-- /seeds -->)",
           lambda x: x.group(1) + "\n".join(rows) + x.group(2), d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
