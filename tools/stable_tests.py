#!/usr/bin/env python3
"""Build /repo, run its tests and compare with /opt/vp/BASELINE.json. Exit 0: all stable tests pass."""
import json, subprocess, sys, tempfile, os
out = tempfile.mktemp(suffix=".json")
p = subprocess.run(["bash", "/opt/vp/test.sh", out], capture_output=True, text=True)
base = json.load(open("/opt/vp/BASELINE.json"))
def names(d):
    for k in ("passed", "stable", "tests", "pass"):
        if k in d:
            v = d[k]
            return set(v if isinstance(v, list) else [n for n, r in v.items() if r in (True, "passed", "pass")])
    raise SystemExit("unknown format %s" % list(d))
got = names(json.load(open(out))) if os.path.exists(out) else set()
want = names(base)
miss = want - got
print("stable %d passed %d missing %d" % (len(want), len(got), len(miss)))
if miss:
    print("\n".join(sorted(miss)[:10])); print(p.stdout[-1500:])
    sys.exit(1)
