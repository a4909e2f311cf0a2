#!/usr/bin/env python3
"""caught.py [--all] [--lane=DIR] ID...: applies each planted change to /repo in turn (or to a clone of it below DIR),
runs the check of its property (or every check), and undoes it.  Development aid, used by no check."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
sys.path.insert(0, V + "/tools")
import registry
R, W = "/repo", V
for a in args:
    if a.startswith("--lane="):
        import mutate
        R, W = mutate.setup(a[7:])
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    props = sorted(registry.CHECKS) if every else [prop]
    subprocess.check_call(["git", "-C", R, "apply", d + "/patch.diff"])
    try:
        for p in props:
            if p not in registry.CHECKS:
                print(i, p, "NO CHECK", flush=True)
                continue
            t = time.time()
            r = subprocess.run(["python3", W + "/tools/check.py", p, "quick"], capture_output=True, text=True, cwd=W)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            hit = r.returncode == 1 and v and ("property=" + p) in v[0]
            if p == prop or hit or r.returncode not in (0, 1):
                print(i, p, "CAUGHT" if hit else "MISSED rc=%d" % r.returncode, len(v), "%.0f s" % (time.time() - t), flush=True)
                if p == prop and not hit:
                    print(r.stdout[-300:], r.stderr[-300:], flush=True)
    finally:
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
