#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties listed below (run by hand when the claims change)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import plan

LEVEL_NOTE = ("Held on the executions produced by the generated workload of this run (counted in the evidence "
              "file); nothing is claimed about executions that were not produced. Trusts the oracle in "
              "harness/src/props, rustc and std.")
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in plan.RULES:
        NA[i] = "check not built yet"
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i} quick",
        "thorough_cmd": f"./check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": plan.TECHNIQUE[i],
        "level": plan.LEVEL.get(i, "exploration"),
        "level_note": plan.NOTES.get(i, LEVEL_NOTE),
    })
m = {
    "version": 1,
    "setup_cmd": "./check --setup",
    "hooks": {"guard": "none", "enable": "no hooks: the monitors observe the public interface", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "See DESIGN.md. ./check <ID> quick|thorough; ./check --replay <file> re-runs one failing case.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
