#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/props.py (run by hand after editing either)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
from props import NA_DEFS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in sorted(list(PROPS) + list(NA_DEFS)):
        d = PROPS.get(k) or NA_DEFS[k]
        assert len(d["title"]) <= 80, (k, len(d["title"]))
        a = {"files": d["files"], "mechanism": d["mech"]}
        if d["state"]: a["state"] = d["state"]
        if d["observe"]: a["observe_at"] = d["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": k, "title": d["title"], "statement": d["statement"],
                            "quantifier": {"over": d["over"], "text": d["qtext"]},
                            "why_tests_cant": d["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/vbuild.py --all", "checks": [],
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
     "notes": "Every check rebuilds /repo's sources with AddressSanitizer+UndefinedBehaviorSanitizer (content-addressed cache in build/, git-ignored), runs its workload under a monitor and rewrites evidence/<id>.json. No hooks in /repo."}
for k in sorted(PROPS):
    c, p = PROPS[k], {"id": k}
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s" % p["id"],
                        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"],
                        "technique": c["technique"], "level": c.get("level", "exploration"),
                        "level_note": c["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
