#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design.md, with each rule's own account of itself and the planted bugs filled in."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
na = {x["property"]: x["reason"] for x in json.load(open(os.path.join(HERE, "MANIFEST.json")))["not_applicable"]}
out = []
for p in props:
    f = os.path.join(HERE, "rules", p["id"].lower() + ".py")
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if os.path.exists(f):
        doc = ast.get_docstring(ast.parse(open(f).read()))
        doc = doc.split(": ", 1)[1] if doc.startswith(p["id"] + ":") else doc
        head, _, rest = doc.partition("\n\n")
        out.append("Rule (`rules/%s.py`): %s\n" % (p["id"].lower(), rest or head))
    else:
        out.append("Not applicable: %s\n" % na.get(p["id"], "no check."))
seeds = []
d = os.path.join(HERE, "seeded")
caught = {}
c = os.path.join(HERE, "tools", "caught.json")
if os.path.exists(c):
    caught = json.load(open(c))
for s in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, s, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), caught.get(s, "?")))
t = open(os.path.join(HERE, "tools", "design.md")).read()
t = t.replace("@PROPERTIES@", "\n".join(out)).replace("@SEEDS@", "| id | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(seeds))
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
