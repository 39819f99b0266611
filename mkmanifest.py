#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the properties the harness implements."""
import json, subprocess, os
root = os.path.dirname(os.path.abspath(__file__))
have = {l.split()[0] for l in subprocess.check_output([root + "/harness/target/release/vmcheck", "list"], text=True).splitlines()}
notes = json.load(open(root + "/levels.json"))
checks, na = [], []
for l in open(root + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    n = notes[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": n["technique"],
        "level": "exploration",
        "level_note": n["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks share one Rust harness (harness/), which depends on /repo by path. VERIF_CASES and VERIF_JOBS override case counts and worker processes; ./check.sh replay FILE re-runs a replay file. No hooks: everything is reached through public items.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
