"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and meta/caught.json
(bug -> checks seen to report it; filled by hand from tools/seeding/seed.sh)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(f"{R}/meta/caught.json"))
rows = []
for d in sorted(os.listdir(f"{R}/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    c = caught.get(d)
    rows.append((m["property"], d, m["needs"], "not measured" if c is None else ", ".join(c) or "missed"))
rows.sort()
t = open(f"{R}/DESIGN.md").read()
head = t[:t.index("## Planted bugs")]
out = head + """## Planted bugs

`seeded/<id>/` holds each with its demonstration. "Caught by" names the checks seen to report it.

| property | bug | needs | caught by |
|---|---|---|---|
"""
for p, d, n, c in rows:
    out += f"| {p} | {d} | {n} | {c} |\n"
open(f"{R}/DESIGN.md", "w").write(out)
