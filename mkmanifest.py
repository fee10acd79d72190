#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
reg = json.load(open(os.path.join(V, "checks", "registry.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    r = reg.get(p)
    if r and "not_applicable" not in r:
        checks.append({
            "property": p,
            "quick_cmd": "python3 vp.py run %s" % p,
            "thorough_cmd": "python3 vp.py run %s" % p,
            "technique": r["technique"],
            "level": r["level"],
            "level_note": r["note"],
            "evidence_file": "evidence/%s.json" % p,
        })
    else:
        na.append({"property": p, "reason": r["not_applicable"] if r else "No check has been built for this property yet."})
m = {
    "version": 1,
    "setup_cmd": "python3 vp.py setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks compile the library sources of /repo unchanged (no hooks in /repo) together with the drivers in /verif/checks. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
