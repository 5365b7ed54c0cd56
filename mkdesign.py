#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md (between the markers)."""
import glob, json, os, re
V = os.path.dirname(os.path.abspath(__file__))
rows = ["| planted bug | property | what it breaks | needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/")))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- bugs -->\n).*?(<!-- /bugs -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), s, flags=re.S)
open(p, "w").write(s)
