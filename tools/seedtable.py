#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(ROOT, "DESIGN.md")
MARK = "<!-- planted bugs -->\n"
text = open(D).read().split(MARK)[0]
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"],
                                               m["needs"], m.get("caught_by", m["property"])))
open(D, "w").write(text + MARK + "| bug | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n" +
                   "\n".join(rows) + "\n")
