#!/usr/bin/env python3
"""show.py <replay>: short account of a replay file"""
import json, sys
for p in sys.argv[1:]:
    d = json.load(open(p))
    print(d["property"], d["key"], d["reason"])
    s = dict(d["scenario"])
    print("  scenario", json.dumps(s)[:1500])
    r = json.dumps(d["result"])
    print("  result", r[:1500])
