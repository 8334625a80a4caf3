#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property (its check catches it) | needs |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s%s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"],
                "" if m.get("caught", True) else " (missed)", " ".join(m["needs"].split()).replace("|", "/")))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a = s.index("<!-- seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n")
