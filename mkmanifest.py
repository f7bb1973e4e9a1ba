#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json (claimed checks) and na.json (not claimed)."""
import json, os
d = os.path.dirname(os.path.abspath(__file__))
claims = json.load(open(os.path.join(d, "claims.json")))
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": [],
    "not_applicable": claims["not_applicable"],
    "notes": claims["notes"],
}
for c in claims["checks"]:
    cmd = "bash check.sh " + c["property"]
    m["checks"].append({"property": c["property"], "quick_cmd": cmd, "thorough_cmd": cmd,
                        "evidence_file": "evidence/%s.json" % c["property"],
                        "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]})
props = [json.loads(l)["id"] for l in open(os.path.join(d, "properties.jsonl"))]
have = sorted([c["property"] for c in m["checks"]] + [n["property"] for n in m["not_applicable"]])
assert have == sorted(props), (set(props) ^ set(have), [h for h in have if have.count(h) > 1])
json.dump(m, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(d, "MANIFEST.json"), "a").write("\n")
