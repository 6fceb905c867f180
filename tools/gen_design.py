#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property (tools/design_props.py) + seeded table + tools/design_tail.md"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(V + "/tools/design_props.py").read(), ns)
D = ns["D"]
out = open(V + "/tools/design_head.md").read()
out += "\n## Properties\n"
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    files = sorted(glob.glob(V + "/harness/%s*.cpp" % i.lower()))
    scen = []
    for f in files:
        scen += re.findall(r"MC_SCENARIO\((\w+)", open(f).read())
    out += "\n### %s %s\n\n" % (i, p["title"])
    out += "*Harness*: %s (%s)\n\n" % (", ".join("`harness/%s`" % os.path.basename(f) for f in files), ", ".join(scen))
    out += D[i].strip() + "\n"
out += "\n## Planted bugs\n\n" + ns["SEED_HEAD"].strip() + "\n\n| change | property | needs | reported by scenario |\n|---|---|---|---|\n"
res = json.load(open(V + "/tools/seed_results.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]; m = json.load(open(d)); r = res.get(i, {})
    by = "; ".join(x.split(":")[0] for x in r.get("by", [])[:1]) if r.get("CAUGHT") else "**missed**"
    if i in ns["MISSED_FIRST"]: by += " (missed at first: %s)" % ns["MISSED_FIRST"][i]
    out += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), by)
out += "\n" + open(V + "/tools/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(out)
