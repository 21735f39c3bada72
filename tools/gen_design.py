#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md, one section per property (from the property modules), the planted bugs"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
out = [open(V + "/tools/design_head.md").read()]
how = json.load(open(V + "/tools/how.json"))
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out.append("### %s %s\n" % (i, p.get("title", "")))
    if i in how:
        out.append(how[i] + "\n")
    try:
        m = importlib.import_module("props." + i.lower())
    except ModuleNotFoundError:
        out.append("Check under construction.\n")
        continue
    out.append("Bounds:\n" + "\n".join("* " + b for b in m.PROP.bounds) + "\n")
    if m.PROP.assumptions:
        out.append("Assumptions:\n" + "\n".join("* " + b for b in m.PROP.assumptions) + "\n")
    q, t = m.tasks("quick", 1), m.tasks("thorough", 1)
    out.append("Configurations: " + ", ".join(sorted({x.cfg.name for x in q + t})) + ". Tasks: %d quick, %d thorough.\n" % (len(q), len(t)))
f = V + "/tools/design_tail.md"
out.append(open(f).read() if os.path.exists(f) else "")
out.append("## Planted bugs\n\n| id | property | needs | caught by |\n|---|---|---|---|")
c = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], ", ".join(c.get(d, ["?"])) or "missed"))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
