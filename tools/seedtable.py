"""writes the table of planted bugs into DESIGN.md"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
s = open(V + "/DESIGN.md").read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->\n"
t = a + "\nEvery one of the %d below is caught (exit 1) by the check of its property.\n\n" % (len(rows) - 2) + "\n".join(rows) + "\n\n" + b
s = s.replace("SEEDED_TABLE\n", t) if "SEEDED_TABLE" in s else s[:s.index(a)] + t + s[s.index(b) + len(b):]
open(V + "/DESIGN.md", "w").write(s)
