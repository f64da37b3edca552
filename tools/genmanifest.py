#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties the checker has suites for."""
import json, subprocess, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
os.chdir(root)
have = subprocess.run(["mc/target/release/mc", "list"], capture_output=True, text=True, check=True).stdout.split()
props = [json.loads(l) for l in open("properties.jsonl")]
notes = json.load(open("tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = notes.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i} quick",
            "thorough_cmd": f"./run.sh {i} thorough",
            "technique": n.get("technique", "stateless model checking: exhaustive enumeration of operation sequences and inputs on the real code against a reference model"),
            "level": n.get("level", "model_checking"),
            "level_note": n.get("note", "Exhaustive within the bounds listed per suite in the evidence file; nothing is claimed beyond them. Trusts the reference model, rustc and std."),
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "One checker (mc/): exhaustive choice-tree exploration of the real crate against reference models. No hooks in /repo are needed: everything goes through the public API. known-findings.txt lists genuine defects.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
