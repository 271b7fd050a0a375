#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md. missed: ids no check catches."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MISSED = set()
rows = []
for i in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
    rows.append((m["property"], i, m["what_it_breaks"], m["needs"], "missed" if i in MISSED else m["property"] + " quick"))
rows.sort()
d = open(os.path.join(H, "DESIGN.md")).read()
a = d.index("| property | planted bug") if "| property | planted bug" in d else d.index("SEEDTABLE")
d = d[:a] + "| property | planted bug | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n" + "".join("| %s |\n" % " | ".join(r) for r in rows)
open(os.path.join(H, "DESIGN.md"), "w").write(d)
