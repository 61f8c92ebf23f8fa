#!/usr/bin/env python3
"""writes MANIFEST.json from sa/table.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
from table import CHECKS
NA = {
    "C32": "Whether a value survives serialization depends on serde, the format crates and the user's Serialize and Deserialize implementations at run time; the source of this repository contains nothing that decides it (which format is used for what is C06).",
    "C33": "A liveness property of the runtime: when a timer fires and whether a scheduled task eventually runs depends on the executor, the operating system and the peer, and no static argument over this source bounds it (that waits are bounded by a timeout at all is C10, that wakers are registered C29).",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        o = CHECKS[i][2]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": o["technique"], "level": "other",
                       "level_note": "Static analysis of the current source, nothing is executed. " + o.get("note", "Covers every path of the analysed entry points up to the abstraction of loops and data; alarms only on behaviour that is definitely wrong in the abstraction, what it cannot decide is listed as undecided in the evidence. Trusts the compiler's MIR and the models of std, tokio and the cryptography crates.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "Not built yet: the check for this property is still missing.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
