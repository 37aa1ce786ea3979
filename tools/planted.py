#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m.get("caught", m["property"]), m["what_it_breaks"].replace("|", "\\|").replace("\n", " ")))
head = "## 5. Planted bugs"
text = open(root + "/DESIGN.md").read().split(head)[0] + head + """

Each was written from the property and the code, compiles, passes the repository's tests, and has a
demonstration of its own. "Caught by" is the check that reports it in the quick tier (only the bug's own
property's check was tried). Those that the checks missed at first, and what was added for them, are in section 6.

| planted bug | caught by | what it breaks |
|---|---|---|
""" + "\n".join(rows) + "\n"
tail = root + "/tools/planted-notes.md"
text += "\n" + open(tail).read()
open(root + "/DESIGN.md", "w").write(text)
