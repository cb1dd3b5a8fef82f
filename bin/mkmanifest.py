#!/usr/bin/env python3
"""Writes MANIFEST.json (a maintenance tool; no check runs it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
HEAP = "TLA+ (Heap.tla): TLC-generated programs replayed on the real code, recorded traces validated by TLC"
CLAIMED = {}
exec(open(os.path.join(V, "bin", "claims.py")).read())
m = dict(version=1,
         setup_cmd="bin/setup",
         hooks=dict(guard="GGGGC_VERIF", enable="-DGGGGC_VERIF (each driver compiles /repo's sources itself)",
                    source_commits=HOOKS),
         checks=[], not_applicable=[],
         notes="See DESIGN.md. Every check is bin/check ID; VERIF_TIER=thorough deepens it.")
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, lv, note = CLAIMED[i]
        m["checks"].append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="VERIF_TIER=thorough bin/check " + i,
                                technique=t, level=lv, level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason="check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
