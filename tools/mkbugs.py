"""Prints the table of planted bugs for DESIGN.md (not used by any check)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(here, "tools", "bugnotes.json")))
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["needs"].replace("|", "/"), notes.get(d, "yes")))
print("| property | id | needs | caught at first |\n|---|---|---|---|")
for r in sorted(rows):
    print("| %s | %s | %s | %s |" % r)
