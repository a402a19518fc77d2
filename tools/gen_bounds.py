#!/usr/bin/env python3
"""Writes BOUNDS.md from the family lists of the built explorers (build/t/release)."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
out = ["# Explored spaces", "",
       "Generated by tools/gen_bounds.py from the checks themselves (`cNN list`). Units are the pieces work is",
       "divided into; the number of executions is in the evidence.", ""]
for i in [k for k in range(1, 21) if k != 16]:
    out.append("## C%02d" % i)
    out.append("")
    fam = {}
    for tier in ("quick", "thorough"):
        t = subprocess.run([V + "/build/t/release/c%02d" % i, "list", "--tier", tier], capture_output=True, text=True).stdout
        for l in t.splitlines():
            n, name, units, what = l.split(" ", 3)
            fam.setdefault((int(n), name), {})[tier] = (units, what.lstrip("- "))
    for (n, name), d in sorted(fam.items()):
        q, t = d.get("quick"), d.get("thorough")
        if q and t and q == t:
            out.append("* **%s** (both tiers, %s units): %s" % (name, q[0], q[1]))
        else:
            if q:
                out.append("* **%s** (quick, %s units): %s" % (name, q[0], q[1]))
            if t:
                out.append("* **%s** (thorough, %s units): %s" % (name, t[0], t[1]))
    out.append("")
open(V + "/BOUNDS.md", "w").write("\n".join(out))
