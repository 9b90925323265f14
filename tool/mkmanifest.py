#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every lint/checks/cNN.py, everything else not applicable with its reason."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lint"))
NA = {
    "C33": "equality of the output text with the declaration a name encodes is a value-level property of a recursive string transformation with no independent static specification of the output; the tables it relies on are decided under C25",
}
LEVEL = {}
NOTE = "decided on the LLVM IR of the current sources (all paths of the anchored functions, no unrolling bound unless stated in the evidence); trusted: clang 18 front end, the analysis in lint/"
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    f = os.path.join(V, "lint", "checks", i.lower() + ".py")
    if os.path.exists(f):
        ns = {}
        src = open(f).read()
        tech = None
        for l in src.split("\n"):
            if l.startswith("TECHNIQUE = "):
                tech = eval(l[12:])
            if l.startswith("NOTE = "):
                ns["note"] = eval(l[7:])
        if tech is None:
            tech = "static analysis: path-sensitive symbolic summaries of the compiled functions"
        checks.append(dict(property=i, quick_cmd="python3 lint/check.py " + i, thorough_cmd="python3 lint/check.py %s --thorough" % i,
                           technique=tech, level="other", level_note=ns.get("note", NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 lint/core.py", checks=checks, not_applicable=na,
         notes="Every check compiles /repo's current sources to LLVM IR itself and decides the property from that; nothing of /repo is executed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
