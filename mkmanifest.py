#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props_meta.py."""
import json, os
import props_meta as M
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in M.PROPS:
        m = M.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": m.get("technique", "deterministic simulation with fault injection: seeded search over schedules, delays and faults"),
                       "level": "exploration", "level_note": m.get("note", "") + ("" if not m.get("note") else " ") +
                       "Seeded search, not exhaustive: a pass means no violation in the executions explored. Trusts: " + "; ".join(m["stub"]) + "."})
    else:
        na.append({"property": i, "reason": M.NA.get(i, "No check has been built for it yet.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
