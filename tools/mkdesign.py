#!/usr/bin/env python3
# Fills the generated tables of DESIGN.md: properties (tools/levels.json) and planted changes (seeded/*/meta.json, tools/caught.json).
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(os.path.join(here, "tools", "levels.json")))
caught = json.load(open(os.path.join(here, "tools", "caught.json")))
t = ["## Properties: how each is decided", "", "| id | title | level | how |", "|---|---|---|---|"]
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l); e = lv[p["id"]]
    t.append("| %s | %s | %s | %s |" % (p["id"], p["title"], e["level"], e["note"].replace("|", "/")))
s = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json"))); n = os.path.basename(d)
    s.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), caught.get(n, "not checked yet")))
p = os.path.join(here, "DESIGN.md")
x = open(p).read()
for tag, rows in (("PROPERTIES", t), ("SEEDED", s)):
    x = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (tag, tag), lambda _: "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, "\n".join(rows), tag), x, flags=re.S)
open(p, "w").write(x)
