#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in registry.CHECKS:
        m, f, level, tech = registry.CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s" % p, "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": level, "level_note": registry.NOTES.get(p, registry.NOTE)})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": registry.NA.get(p, "check under construction")} for p in props if p not in registry.CHECKS],
     "notes": "TLA+ specification in spec/, checked with TLC; tools/check.py rebuilds harness/ from /repo's working tree, lets TLC generate behaviours, replays them on the code and has TLC judge the recorded traces. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
