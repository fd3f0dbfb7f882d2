#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and a log of `seed.py check`."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(CAUGHT|MISSED) (\S+) (\S+) ", l)
        if m:
            got[m[2]] = m[1]
rows = []
for i in os.listdir(ROOT + "/seeded"):
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    rows.append((m["property"], i, m["what_it_breaks"].replace("|", "/").strip(), {"CAUGHT": "yes", "MISSED": "no"}.get(got.get(i), "not run")))
rows.sort()
d = open(ROOT + "/DESIGN.md").read()
d = d[:d.index("## Planted bugs")] + "## Planted bugs\n\n"
d += "%d changes in `seeded/`, each confirmed (builds, stable tests pass, demonstration separates).  Caught = the quick check of the\nproperty, seed 1, exits 1 with its VIOLATION line.\n\n" % len(rows)
d += "| property | bug | breaks | caught |\n|---|---|---|---|\n"
d += "".join("| %s | %s | %s | %s |\n" % r for r in rows)
open(ROOT + "/DESIGN.md", "w").write(d)
