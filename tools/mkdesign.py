#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines = []
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    lines.append(" *  `%s` (%s): needs %s" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"]))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a = s.index(" *  `c", s.index("## Planted bugs"))
b = s.index("\n\n", a)
open(p, "w").write(s[:a] + "\n".join(lines) + s[b:])
