#!/usr/bin/env python3
"""fills the tables of DESIGN.md from props.py / checks.py / seeded/ (text between the markers)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
t = ""
for p in P:
    if p["id"] not in CHECKS: continue
    t += "* **%s %s** - decided over %s.\n" % (p["id"], p["title"], p["quantifier"]["text"])
    for h in CHECKS[p["id"]]["harnesses"]:
        t += "  - `%s` (%s): %s; bounds: %s\n" % (h["name"], h["src"], h["what"], h["bounds"])
    t += "  - why tests cannot: %s\n" % p["why_tests_cant"]
s = "| change | property | needs | caught by |\n|---|---|---|---|\n"
caught = {}
try: caught = json.load(open(V + "/tools/caught.json"))
except OSError: pass
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    s += "| %s: %s | %s | %s | %s |\n" % (i, m["what_it_breaks"], m["property"], m["needs"], caught.get(i, "?"))
d = open(V + "/DESIGN.md").read()
def put(d, tag, txt):
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    if a not in d: d = d.replace("@@%s@@" % tag, a + "\n" + b)
    return d[:d.index(a)] + a + "\n" + txt + d[d.index(b):]
d = put(put(d, "TABLE", t), "SEEDS", s)
open(V + "/DESIGN.md", "w").write(d)
