"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
d = os.path.join(os.path.dirname(__file__), "..")
c = json.load(open(os.path.join(d, "tools/caught.json")))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(os.path.join(d, "seeded"))):
    m = json.load(open(os.path.join(d, "seeded", n, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], c.get(n.split("-")[0], "not yet")))
p = os.path.join(d, "DESIGN.md")
s = open(p).read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->"
s = s[: s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b) :]
open(p, "w").write(s)
