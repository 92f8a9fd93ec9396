#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vp/props.py (run by hand after editing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, check
V = check.VERIF
have = {p for u in check.load_units() for p in u.props}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
checks = []
for p in props.PROPS:
    if p["id"] in props.NOT_APPLICABLE:
        continue
    assert p["id"] in have, p["id"] + " has no units"
    assert len(p["title"]) <= 80, p["id"]
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 vp/check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 vp/check.py %s --tier thorough" % p["id"],
                   "technique": p.get("technique", props.TECH), "level": p["level"], "level_note": p["note"]})
missing = have - {p["id"] for p in props.PROPS}
assert not missing, missing
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in props.NOT_APPLICABLE.items()]},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
