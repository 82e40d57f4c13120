#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties that have checks (configs.CLAIMED)."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(H, "mc"))
import configs
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
TECH = "explicit-state model checking of the real code: exhaustive exploration of all reachable container states over a bounded grid of domain values, every transition judged against a reference model"
TECHI = "exhaustive enumeration of all intervals / pairs / triples over a bounded grid on the real code, judged against a set-of-points model"
NOTE = ("Every state reachable within the bounds (grid of P domain values, listed configurations of interval type, domain, order and container kind) is visited and every operation "
        "of the property is executed from it on the real headers and compared with an independent reference model; exhaustive inside the bounds, nothing outside them. "
        "Trusts the compiler, the reference model in mc/model.hpp and the configurations in mc/configs.py.")
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in configs.CLAIMED:
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=TECHI if i[0] == "I" else TECH, level="model_checking", level_note=NOTE))
    else: m["not_applicable"].append(dict(property=i, reason=configs.UNCLAIMED.get(i, "check not built yet")))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
