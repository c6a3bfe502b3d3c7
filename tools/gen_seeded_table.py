#!/usr/bin/env python3
# writes the table of planted bugs into DESIGN.md
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = json.load(open(os.path.join(V, "tools/seeded_notes.json")))
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded/*/"))):
    i = os.path.basename(d[:-1])
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), NOTE.get(i, "")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a = s.index("|-|-|-|-|\n") + len("|-|-|-|-|\n")
open(p, "w").write(s[:a] + "\n".join(rows) + "\n")
print(len(rows), "rows")
