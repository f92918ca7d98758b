"""Prints the table of planted bugs for DESIGN.md (property, ids)."""
import json, glob, os
rows = {}
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../seeded/*/meta.json"))):
    m = json.load(open(d))
    rows.setdefault(m["property"], []).append("`%s`" % os.path.basename(os.path.dirname(d)))
for p in sorted(rows):
    print("| %s | %s |" % (p, ", ".join(rows[p])))
