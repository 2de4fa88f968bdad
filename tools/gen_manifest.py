#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
T = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, T)
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(T)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")} for i in ids if i not in PROPS]
GENERIC = "Holds on the executions explored and observed (counted in the evidence), not on all inputs; trusts the oracle in /verif/harness and the Go toolchain."
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": PROPS[i]["technique"],
        "level": PROPS[i]["level"],
        "level_note": (PROPS[i]["note"] + " " if PROPS[i]["note"] else "") + GENERIC,
    } for i in ids if i in PROPS],
    "not_applicable": na,
    "notes": "No hooks in /repo: everything is observed through public interfaces, the race detector, synctest bubbles and strace fault injection on child processes of the checks.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(na), "not applicable")
