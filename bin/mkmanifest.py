"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "harness"))
from registry import CHECKS, NOTES, NOT_APPLICABLE
props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in CHECKS:
        tech, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"bin/check {p} --thorough",
                       "technique": tech, "level": "model_checking", "level_note": note})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")} for p in props if p not in CHECKS]
json.dump({"version": 1, "setup_cmd": "bash bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the public API exposes the abstract state. All checks: TLA+ checked with TLC, bound to the code by trace validation and replay of TLC-generated behaviours."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
