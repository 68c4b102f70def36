#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(os.path.join(root, "seeded", "*", "meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
rows.sort()
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
new = "".join(f"| {a} | `{b}` | {c} |\n" for a, b, c in rows)
s, n = re.subn(r"(?:\| C\d\d \| `[a-z0-9-]+` \| [^\n]* \|\n)+", lambda _: new, s)
assert n == 1, n
open(p, "w").write(s)
print(len(rows), "planted bugs")
