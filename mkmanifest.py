#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
SEQ = "property-based testing: model-based random operation sequences against a reference model"
T = {}
for i in "01 02 03 04 05 06 07 08 09 10 11 12 20 21".split():
    T["C" + i] = (SEQ, "random search over bounded histories (up to ~60 operations, 2 addresses, 8 mailboxes; one in fifty with bursts of up to 255 messages and up to 72 mailboxes); sequential, deterministic polling")
T["C15"] = ("property-based testing: differential random histories through address and channel", "random search over bounded histories")
exec(open(os.path.join(here, "manifest_extra.py")).read()) if os.path.exists(os.path.join(here, "manifest_extra.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    if p in T:
        t, n = T[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                            "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
