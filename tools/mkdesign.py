#!/usr/bin/env python3
"""Rewrites the generated table of planted bugs at the end of DESIGN.md (run by hand; no check reads seeded/)."""
import json, glob, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = f"{D}/DESIGN.md"
s = open(p).read()
mark = "<!-- planted bugs: generated by tools/mkdesign.py -->"
s = s.split(mark)[0].rstrip() + "\n\n" + mark + "\n\n| bug | caught by | needs |\n|---|---|---|\n"
for m in sorted(glob.glob(f"{D}/seeded/*/meta.json")):
    d = json.load(open(m))
    s += f"| {m.split('/')[-2]} | {d['property']} quick | {d['needs'].replace('|', '/')} |\n"
open(p, "w").write(s)
