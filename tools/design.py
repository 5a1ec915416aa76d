#!/usr/bin/env python3
"""Fills the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d.get("caught_by", d["property"] + " quick"), d["needs"]))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
head = "| seed | property | caught by | needs |\n|---|---|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\n## Defects found")
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
