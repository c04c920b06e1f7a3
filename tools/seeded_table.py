#!/usr/bin/env python3
"""The table of planted changes for DESIGN.md, from seeded/*/meta.json."""
import glob, json, os
print("| change | property | what it breaks |\n|---|---|---|")
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../seeded/*/meta.json"))):
    m = json.load(open(f))
    print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "/").split("\n")[0]))
