#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
MC = "explicit-state model checking of the real entry points in lockstep with a reference model"
NOTE = ("Every operation sequence within the listed alphabets and depths is executed on the real contract, compared step by step "
        "with an independent reference model, and every reached state judged; nothing outside the bounds is claimed. Trusted: the "
        "chain semantics in mc/src/world.rs and the reference model in mc/src/model.rs.")
T = {
 "C11": (MC + ", with every payment of every transaction refused in turn", "model_checking", NOTE),
 "C17": ("explicit-state model checking of the role machine to closure (all reachable states)", "model_checking",
   "All reachable role configurations over the listed actors are visited and every call by every actor tried in each; complete for those actors, since the contract treats addresses uniformly."),
 "C19": ("exhaustive enumeration of the whole input space against exact integer arithmetic", "exploration",
   "Complete for the price function: every supported level and 2000 beyond either end. Through the entry points only a grid of levels. If the price function is not public the grid alone decides."),
 "C20": ("exhaustive enumeration of a product grid against exact integer arithmetic", "exploration",
   "Every combination of the listed levels and amounts, directly and by trading through the entry points; amounts and levels off the grid are not covered."),
 "C22": ("enumeration of histories that build books of growing size, storage accesses of every measured operation judged against its growth bound", "model_checking",
   "Costs are measured on the real contract for every listed build-up order and size; growth beyond the largest size is extrapolated, not shown."),
 "C27": ("exhaustive enumeration of configurations", "exploration", "Complete over the listed names and supply answers."),
}
checks = []
for p in props:
    i = p["id"]
    t, l, n = T.get(i, (MC, "model_checking", NOTE))
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: every check drives the public entry points. Known findings and repairs: known-findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
