#!/usr/bin/env python3
"""writes DESIGN.md: docs/design_head.md, one section per property (texts, harnesses, bounds), the planted bugs"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib"); sys.path.insert(0, V + "/docs")
import table, per_property
o = [open(V + "/docs/design_head.md").read().rstrip(), "", "## Per property", "",
     "Why tests cannot settle each property is in `properties.jsonl`; costs are in the evidence files (quick: a few seconds to a minute each).", ""]
fx = {}
for k in json.load(open(V + "/known_findings.json")):
    fx.setdefault(k["property"], []).append(k["entry"].split(" ", 2)[2] if k["status"] == "fixed" else "KNOWN " + k["what"])
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    o += ["### %s %s" % (i, p["title"]), ""]
    if i in table.NA:
        o += ["not applicable: " + table.NA[i], ""]; continue
    o += [per_property.D[i], ""]
    for h in table.T[i]():
        t = ""
        if h.thorough and h.thorough.get("defs"):
            t = "; thorough: " + " ".join("%s=%s" % x for x in h.thorough["defs"].items())
        o.append("* `%s` (%s%s): %s%s" % (h.name, h.file, "".join(" %s=%s" % x if x[1] != "" else " " + x[0] for x in h.defs.items()), h.bounds, t))
    if i in fx: o += ["", "Defects found and repaired: " + "; ".join(fx[i]) + "."]
    o.append("")
o += ["## Planted bugs (seeded/) and what catches them", "",
      "Each was caught by the check of its property (and some by others), with `tools/tryseeds.sh`; misses and what was done about them are listed after the table.", ""]
def num(x): return int("".join(c for c in os.path.basename(x) if c.isdigit()))
for d in sorted(glob.glob(V + "/seeded/*"), key=num):
    m = json.load(open(d + "/meta.json"))
    o.append("* %s (%s): %s. Needs: %s" % (os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"]))
o += ["", open(V + "/docs/design_tail.md").read()]
open(V + "/DESIGN.md", "w").write("\n".join(o))
