#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- table -->", "| change | property (and check that catches it) | what it breaks | what it needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/S*")):
    m = json.load(open(d + "/meta.json"))
    f = lambda k: m[k].replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"] + (" " + m["note"] if "note" in m else ""), f("what_it_breaks"), f("needs")))
rows.append("<!-- end -->")
s = open(V + "/DESIGN.md").read()
s = s.replace("SEEDED_TABLE", "<!-- table -->\n<!-- end -->")
s = re.sub(r"<!-- table -->.*?<!-- end -->", lambda _: "\n".join(rows), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
