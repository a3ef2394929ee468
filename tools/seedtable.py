#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- planted -->\n"
rows = []
for name in sorted(os.listdir(os.path.join(VERIF, "seeded")), key=lambda name: int(name[1:].split("-")[0])):
    with open(os.path.join(VERIF, "seeded", name, "meta.json")) as fd:
        meta = json.load(fd)
    rows.append("| %s | %s | %s |\n" % (name, meta["property"], meta["what_it_breaks"]))
path = os.path.join(VERIF, "DESIGN.md")
with open(path) as fd:
    text = fd.read().split(MARK)[0]
with open(path, "w") as fd:
    fd.write(text + MARK + "| planted bug | caught by | breaks |\n|-|-|-|\n" + "".join(rows))
