#!/usr/bin/env python3
"""Writes MANIFEST.json from config.PROPS and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from config import PROPS
NA = {
    "C16": "pure function of its inputs: no fault, schedule, clock or history can influence whether a derivative rule is right (the stateful part, value/gradient pairing under memory exhaustion, is C15)",
    "C17": "pure function of degree and parameter; no fault, schedule or history in it (evaluations inside histories and under faults are decided by C02)",
    "C18": "pure function of the control points; no fault, schedule or history in it (in-place mapping under faults and aliasing is decided by C01 and C03)",
    "C19": "compile-time tables and integer functions without state, faults or schedules",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick python3 bin/check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": PROPS[i].get("technique", "deterministic simulation: seeded programs and fault schedules in one process, replayable and minimised"),
            "level": "exploration",
            "level_note": PROPS[i].get("note", "seeded random search; a clean batch is evidence, not proof"),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
