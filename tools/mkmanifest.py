"""Writes MANIFEST.json: a check for every property that has a module, not_applicable otherwise."""

import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C02": "stateless model checking of the real code: preemption-bounded exploration under a controlled scheduler",
    "C01": "explicit enumeration of all operation sequences to a depth against a reference model",
    "C15": "breadth-first search over edit histories against a dict/list reference model",
}
NOTE = (
    "Exhaustive within the stated bounds against a reference model; nothing is claimed outside of the alphabet and bounds, "
    "and floating-point cases closer to a decision boundary than the stated margin are skipped and counted."
)
NOTES = {
    "C02": "Every interleaving with at most the stated number of preemptions of the listed thread programs, at shared-memory-opcode granularity; trusts the GIL's opcode atomicity.",
}
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "mc/checks", i.lower() + ".py")):
        checks.append(
            {
                "property": i,
                "quick_cmd": f"./check {i}",
                "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                "technique": TECH.get(i, "bounded-exhaustive enumeration of configurations/inputs of the real code against a reference model"),
                "level": "model_checking",
                "level_note": NOTES.get(i, NOTE),
            }
        )
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump(
    {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
    open(os.path.join(ROOT, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "checks;", len(na), "not claimed")
