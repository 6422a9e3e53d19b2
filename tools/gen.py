#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
import props, registry

H = "include/json_struct/json_struct.h"
D = "include/json_struct/json_struct_diff.h"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        files = p.get("files", [H])
        rec = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": files,
                "state": [{"name": a, "meaning": b, "where": files[0]} for a, b in p.get("state", [])],
                "mechanism": [{"name": m, "where": files[-1] if files[-1] == D else H} for m in p["mech"]],
                "observe_at": p["observe"], "hook_needed": None,
            },
        }
        assert len(rec["title"]) <= 80, rec["title"]
        f.write(json.dumps(rec, ensure_ascii=False) + "\n")

checks, na = [], []
for p in props.PROPS:
    c = registry.CHECKS.get(p["id"])
    if c:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": c["technique"], "level": c["level"], "level_note": c["note"],
        })
    else:
        na.append({"property": p["id"], "reason": p.get("na", "its check is still being built")})
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": checks, "not_applicable": na,
       "notes": "Every check compiles its harness from /verif/checks against /repo's headers at the time of the run and "
                "explores a bounded space completely; check.py ID --replay evidence/replay_ID.json re-runs one violation."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
