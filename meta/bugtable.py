"""python3 meta/bugtable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and meta/caught.json"""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(here + "/meta/caught.json"))
rows = []
for d in sorted(glob.glob(here + "/seeded/*/")):
    i = os.path.basename(d[:-1])
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], caught.get(i, "nothing yet")))
s = open(here + "/DESIGN.md").read()
h = "| planted change | property | needs | caught by |\n|---|---|---|---|\n"
a = s.index(h) + len(h)
b = s.index("\n\n", a)
open(here + "/DESIGN.md", "w").write(s[:a] + "\n".join(rows) + s[b:])
