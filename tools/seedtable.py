#!/usr/bin/env python3
"""Writes the table of planted changes at the end of DESIGN.md (from seeded/*/meta.json)."""
import json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(top, "seeded"))):
    p = os.path.join(top, "seeded", d)
    m = json.load(open(os.path.join(p, "meta.json")))
    files = sorted(set(re.findall(r"^\+\+\+ b/(\S+)", open(os.path.join(p, "patch.diff"), errors="replace").read(), re.M)))
    clean = lambda s: " ".join(s.split()).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (d, ", ".join(f for f in files), clean(m["what_it_breaks"]), m["property"]))
f = os.path.join(top, "DESIGN.md")
t = open(f).read()
mark = "## Planted changes and the checks that catch them\n"
t = t.split(mark)[0].rstrip() + "\n\n" + mark + """
Each was confirmed in a scratch copy (builds, 45 stable tests pass, demo.sh
fails with it and passes without) and then run against the quick check of its
property; all of those listed are caught by that check (exit 1 with its
VIOLATION line).  Those that were missed at first, and what was changed for
them, are described with the properties above.  The table is written by
tools/seedtable.py.

| change | file | what it breaks | caught by |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(f, "w").write(t)
