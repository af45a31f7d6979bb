#!/usr/bin/env python3
"""Decide one property of /repo's current source by static analysis.

usage: check.py --property C05 [--tier quick|thorough]
exit 0: holds on everything analysed; exit 1: VIOLATION line; exit 2: the analysis itself failed."""
import argparse
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa import engine  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay", help="print a replay file's violations again from the current source")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    res = engine.check(a.property, tier)
    known = engine.known_findings(a.property)
    violations, matched = [], []
    for f in res.findings:
        k = next((k for k in known if re.search(k["match"], f.key)), None)
        (matched if k else violations).append((f, k))
    ev = dict(property=a.property, tier=tier, seed=int(os.environ.get("VERIF_SEED") or 0), level=res.level, coverage=res.coverage,
              wall_s=round(time.time() - t0, 2), violations=len(violations), assumptions=res.assumptions)
    ev["coverage"]["known_findings_matched"] = [f.key for f, _ in matched]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", a.property + ".json")
    replay = os.path.join("evidence", a.property + ".replay.txt")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for f, k in matched:
        if k["match"] in seen:
            continue
        seen.add(k["match"])
        print("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]))
    rp = os.path.join(HERE, replay)
    if violations:
        with open(rp, "w") as f:
            f.write("reproduce: cd /verif && python3 check.py --property %s\n\n" % a.property)
            for v, _ in violations:
                f.write(v.report() + "\n\n")
        for v, _ in violations[:20]:
            print(v.report())
        print("VIOLATION property=%s replay=%s" % (a.property, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print("property %s holds: %s" % (a.property, res.summary))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except engine.AnalysisBroken as e:
        print("ANALYSIS-ERROR %s" % e)
        sys.exit(2)
