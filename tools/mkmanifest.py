#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
import checks, props
NA = getattr(props, "NA", {})
NOTE = ("Holds on every execution observed (counts in the evidence file), no more. Trusts gcc, libc, the kernel and the reference model in the driver.")
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for p in props.P:
    c = checks.CHECKS.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
            "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c.get("note", "") + (" " if c.get("note") else "") + NOTE})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
