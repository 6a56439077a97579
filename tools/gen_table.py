"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(here, "tools/caught.json")))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, "not run")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
head, tail = s.split("<!-- table -->")[0], s.split("<!-- end table -->")[1]
open(p, "w").write(head + "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end table -->" + tail)
