#!/usr/bin/env python3
"""Renders DESIGN.md: tools/DESIGN.src.md with the table of planted bugs (not a check)."""
import json, os
rows = ["| id | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(d, m['property'])} |")
open('/verif/DESIGN.md', 'w').write(open('/verif/tools/DESIGN.src.md').read().replace('@@TABLE@@', '\n'.join(rows)))
