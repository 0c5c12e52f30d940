"""seedtable.py: rewrite the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | check that catches it | needs |", "|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["needs"]))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "\n" + "\n".join(rows) + "\n" + t[j:])
