#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
head = "| id | property | needs |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = i
while s[j:j + 1] == "|":
    j = s.index("\n", j) + 1
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
