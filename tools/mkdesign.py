#!/usr/bin/env python3
"""Fills bounds, assumptions and planted bugs into DESIGN.md."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
t = open(os.path.join(V, "tools/DESIGN.in.md")).read()
rows = []
for i in range(1, 99):
    f = os.path.join(V, "checks", f"C{i:02}.py")
    if not os.path.exists(f):
        break
    m = importlib.import_module(f"checks.C{i:02}")
    rows.append(f"* **{m.PROPERTY}** quick: {m.BOUNDS['quick']}. Thorough: {m.BOUNDS['thorough']}."
                + ("".join(f"\n  - assumes: {a}" for a in m.ASSUMPTIONS)))
t = t.replace("@@BOUNDS@@", "\n".join(rows))
rows = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    j = json.load(open(os.path.join(V, "seeded", n, "meta.json")))
    rows.append(f"| {n} | {j['property']} | {str(j['needs']).replace('|', '/')} | {j['property']} |")
t = t.replace("@@SEEDED@@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
