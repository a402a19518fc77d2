#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development aid)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
table = "| caught by | planted bug | needs |\n|----|-----|-----|\n"
table += "".join("| %s | `%s` | %s |\n" % r for r in sorted(rows))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: "<!-- table -->\n" + table + "<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
