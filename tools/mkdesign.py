#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (
        os.path.basename(os.path.dirname(d)), m["property"],
        m["what_it_breaks"], m["needs"]))
p = here + "/DESIGN.md"
s = open(p).read()
head, _, _ = s.partition("<!-- planted -->")
open(p, "w").write(head + "<!-- planted -->\n\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
