"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | shows only when | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    with open("%s/seeded/%s/meta.json" % (V, d)) as f:
        m = json.load(f)
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " "), m["property"]))
with open(V + "/DESIGN.md") as f:
    s = f.read()
a, b = s.split("<!-- table -->")[0], s.split("<!-- /table -->")[1]
with open(V + "/DESIGN.md", "w") as f:
    f.write(a + "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->" + b)
