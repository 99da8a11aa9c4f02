"""Writes the table of planted changes into DESIGN.md from seeded/*/meta.json (development aid; no check uses it)."""
import json, os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
out = ["| change | breaks | what it does | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    out.append("| %s | %s | %s | %s |" % tuple(x.replace("|", "\\|") for x in (i, m["property"], m["what_it_breaks"], m["needs"])))
p = os.path.join(os.path.dirname(d), "DESIGN.md")
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
s = open(p).read()
open(p, "w").write(s[:s.index(a) + len(a)] + "\n".join(out) + "\n" + s[s.index(b):])
