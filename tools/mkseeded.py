#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read().split("## Planted bugs")[0].rstrip() + "\n\n"
s += """## Planted bugs

Each was written from a property's text and the code, confirmed in a scratch copy (compiles, the 24 tests pass, its
demonstration fails with it and passes without it), and is caught by the quick check of the property named with the
default seed; other checks often see it too. Those that were missed at first led to the schedules and
oracles described above (twins, dense, readers, near, huge; the `acc` build; order of rows in C07; ways of consuming
iterators; hangs; the models of C24 to C26; the tighter bounds of C27).

| planted bug | caught by | needs |
|---|---|---|
"""
for m in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    j = json.load(open(m))
    s += f"| {os.path.basename(os.path.dirname(m))} | {j['property']} | {j['needs']} |\n"
open(p, "w").write(s)
