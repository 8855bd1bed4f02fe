#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "harness"))
import props
TRACE = "TLA+ specification; trace validation with TLC of behaviours recorded from the real code"
NOTE = ("Every explored case is judged by TLC against the specification; assurance extends to the generated cases "
        "(seeded, sizes in DESIGN.md) and, for the state machines, to all states within the model-checking bounds. "
        "Trusts the encoding of values in harness/common.py and TLC.")
reg = props.registry()
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks = []
for i in ids:
    if i in reg:
        P = reg[i]
        checks.append(dict(property=i, quick_cmd=f"python3 harness/check.py {i} --tier quick",
                           thorough_cmd=f"python3 harness/check.py {i} --tier thorough",
                           technique=P.get("technique", TRACE), level="model_checking",
                           level_note=P.get("note", NOTE)))
na = [dict(property=i, reason="check under construction") for i in ids if i not in reg]
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh",
               hooks=dict(guard="VERIF_HOOKS", enable="no hooks are needed: everything is observed through public interfaces", source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
