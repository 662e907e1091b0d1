#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append(f"| {m['property']} | {os.path.basename(os.path.dirname(f))} | {m['needs']} |\n")
p = V + "/DESIGN.md"
L = open(p).readlines()
i = [k for k, l in enumerate(L) if re.match(r"\| C\d\d \| \S+ \| ", l)]
assert i == list(range(i[0], i[-1] + 1))
L[i[0]:i[-1] + 1] = sorted(rows)
open(p, "w").writelines(L)
print(len(rows))
