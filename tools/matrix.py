#!/usr/bin/env python3
"""Apply each planted bug to a scratch copy of /repo and run its property's check against the copy (SA_REPO). Development aid."""
import json, os, subprocess, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/matrixwt"
subprocess.run(["rm", "-rf", W]); subprocess.run(["cp", "-a", "/repo", W], check=True)
allp = "--all" in sys.argv
only = [a for a in sys.argv[1:] if not a.startswith("--")]
props = [c["property"] for c in json.load(open(H + "/MANIFEST.json"))["checks"]]
for d in sorted(glob.glob(H + "/seeded/*")):
    i = os.path.basename(d)
    if only and i not in only:
        continue
    meta = json.load(open(d + "/meta.json"))
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
    r = subprocess.run(["git", "-C", W, "apply", d + "/patch.diff"], capture_output=True, text=True)
    if r.returncode:
        print(i, "PATCH FAILS", r.stderr); continue
    res = []
    for p in (props if allp else [meta["property"]]):
        r = subprocess.run(["python3", H + "/check.py", "--property", p], capture_output=True, text=True, env=dict(os.environ, SA_REPO=W))
        if r.returncode or p == meta["property"]:
            res.append("%s=%s" % (p, {0: "quiet", 1: "CAUGHT"}.get(r.returncode, "error")))
            if only and r.returncode == 1 and p == meta["property"]: print(r.stdout[:1500])
    print(i, meta["property"], " ".join(res))
subprocess.run(["rm", "-rf", W])
