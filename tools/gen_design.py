#!/usr/bin/env python3
"""Appends section 6 of DESIGN.md (planted bugs) from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
strengthened = dict(l.strip().split(" ", 1) for l in open(os.path.join(here, "tools", "strengthened.txt")) if l.strip() and l[0] != "#")
d = os.path.join(here, "DESIGN.md")
t = open(d).read().split("## 6. Planted bugs")[0]
t += """## 6. Planted bugs
Each directory of `seeded/` is a change to the original lines of gofer that compiles, passes the existing tests,
and comes with a demonstration that fails with it. They were written from the property's text and the code, batch
by batch, before looking at whether a check sees them. "missed at first" names what the check lacked and was
given. All are caught by the quick tier of the property's check unless the table says otherwise.

| property | change | needs | caught |
|---|---|---|---|
"""
rows = []
for f in glob.glob(os.path.join(here, "seeded", "*", "meta.json")):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], n, m["needs"].replace("|", "/"), strengthened.get(n, "yes")))
for r in sorted(rows):
    t += "| %s | %s | %s | %s |\n" % r
open(d, "w").write(t)
print(len(rows), "planted bugs")
