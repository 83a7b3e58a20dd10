#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = json.load(open(V + "/checks.json"))
out = {"version": 1, "setup_cmd": "python3 run.py --build", "checks": [], "not_applicable": [],
       "notes": "run.py builds the Go harness against /repo's working tree, runs generated cases in parallel processes and "
                "writes evidence/<id>.json; failures are shrunk and saved under replays/<id>/ (run.py --replay FILE)."}
for p in props:
    i = p["id"]
    if i not in checks:
        out["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    c = checks[i]
    out["checks"].append({
        "property": i,
        "quick_cmd": "python3 run.py %s --tier quick" % i,
        "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "property-based testing"),
        "level": "exploration",
        "level_note": c.get("note", "generated cases only; no claim beyond what was generated"),
    })
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
