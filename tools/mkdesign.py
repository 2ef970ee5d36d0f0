#!/usr/bin/env python3
"""DESIGN.md = head + tail + table of planted bugs (from seeded/*/meta.json)."""
import json, glob, os
out = open("/verif/tools/DESIGN.head.md").read() + open("/verif/tools/DESIGN.tail.md").read()
out += """## Planted bugs

`seeded/ID/`: each compiles, passes the existing tests, and has a demonstration that fails
only with it. "caught by" is the check that reported it (exit 1) when run against it.

| planted bug | caught by | needs |
|---|---|---|
"""
n = 0
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f)); n += 1
    caught = m.get("caught_by") or m["property"]
    out += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), caught, " ".join(m["needs"].split()).replace("|", "/"))
open("/verif/DESIGN.md", "w").write(out)
print(n, "planted bugs")
