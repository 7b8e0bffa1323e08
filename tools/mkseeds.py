#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the two markers)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "| bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
print(len(rows))
