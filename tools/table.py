#!/usr/bin/env python3
"""Development: the table of seeded bugs in DESIGN.md, from seeded/ and a log of tools/hunt.sh."""
import json, os, re, sys
S = "/verif/seeded"
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (caught|MISSED)(?: rc=\d+)? (\d+s)", l)
        if m:
            res[m.group(1)] = m.group(2) + " in " + m.group(3) if m.group(2) == "caught" else "missed"
rows = ["| bug | needs | check |", "|-----|-------|-------|"]
for i in sorted(os.listdir(S)):
    m = json.load(open(f"{S}/{i}/meta.json"))
    rows.append(f"| {i} | {m['needs']} | {m['property']}: {res.get(i, '?')} |")
p = "/verif/DESIGN.md"
s = open(p).read()
b, e = "<!-- bugs -->", "<!-- /bugs -->"
t = b + "\n" + "\n".join(rows) + "\n" + e
s = s[:s.index(b)] + t + s[s.index(e) + len(e):] if b in s else s.rstrip() + "\n\n## 5. Planted bugs\n\nEach is confirmed by `tools/plant.py` (demo passes without and fails with the change, the existing tests pass) and run\nagainst the quick check of its property by `tools/hunt.sh`; the seconds include building.\n\n" + t + "\n"
open(p, "w").write(s)
print(sum("missed" in r for r in rows), "missed,", sum("?" in r for r in rows), "unknown")
