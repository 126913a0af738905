"""Assembles DESIGN.md: tools/design_head.md, one section per property (from properties.jsonl, specs.py and design_props.json), design_tail.md."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "checks"))
import specs
out = open(os.path.join(here, "design_head.md")).read()
why = json.load(open(os.path.join(here, "design_props.json")))
for line in open(os.path.join(here, "..", "properties.jsonl")):
    p = json.loads(line)
    s = specs.SPECS[p["id"]]
    out += "### %s %s\n\n" % (p["id"], p["title"])
    out += "*Method.* %s. *Workload.* %s\n\n" % (s["technique"][0].upper() + s["technique"][1:], s["rule"])
    out += "*Oracle and reach.* %s\n\n" % why[p["id"]]
    b = list(s.get("assumptions", []))
    b.append(s["note"].replace(specs.OBS, ""))
    out += "*Bounds.* %s\n\n" % " ".join(x[0].upper() + x[1:].rstrip(".") + "." for x in b)
out += open(os.path.join(here, "design_tail.md")).read()
open(os.path.join(here, "..", "DESIGN.md"), "w").write(out)
