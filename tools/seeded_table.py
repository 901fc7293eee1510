"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json (id -> caught by)."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
caught = json.load(open(os.path.join(H, "tools", "caught.json")))
rows = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), caught.get(i) or "missed"))
s = open(os.path.join(H, "DESIGN.md")).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
if a not in s:
    s = s.rstrip("\n") + "\n\n## Planted bugs\n\n" + a + b + "\n"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(os.path.join(H, "DESIGN.md"), "w").write(s)
