#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (a development tool)."""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); rows.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"], m["needs"]))
p = R + "/DESIGN.md"; s = open(p).read()
head = "| id | caught by | breaks | needs |\n|---|---|---|---|\n"
i = s.index(head) + len(head); j = s.index("\n\n", i)
open(p, "w").write(s[:i] + "".join(rows).rstrip("\n") + s[j:])
