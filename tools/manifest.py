#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = json.load(open(os.path.join(root, "checks.json")))
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "check.py builds the harnesses together with /repo's working tree and runs "
             "them; no hooks in /repo are needed. Replay a violation with: "
             "python3 check.py <id> --replay <path>.",
}
for p in props:
    c = checks.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.get("technique", "property-based testing against an explicit oracle, plus libFuzzer over the same property in the thorough tier"),
        "level": "exploration",
        "level_note": c.get("note", "Exploration by generated cases: shows the absence of violations only on what was generated.") + " Assumes: " + ("; ".join(c["assumptions"]) or "nothing beyond the property's domain") + ".",
    })
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
