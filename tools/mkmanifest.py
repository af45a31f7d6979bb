#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the registered scopes and rules."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa import scopes, rules
NA = {
    "N01": "convergence to a minimiser quantifies over the limit of a numerical iteration; no static argument over the source bounds it (the update rules themselves are decided by C06-C08)",
    "N02": "rounding error and conditioning are runtime floating-point quantities; the analysis compares over the reals",
    "N03": "a statistical limit statement over data distributions, not a property of program paths",
    "N04": "equivariance of eigen-solvers, tie-breaking and iterative solvers is a relational numerical statement the value-graph normal forms cannot decide",
    "N05": "invariance of a sampler's distribution is a probabilistic statement; only the formulas are decided (C30, C18)",
}
REFT = "value-graph comparison with reference definitions (gated SSA, algebraic normal forms)"
checks, na = [], []
for ln in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(ln)["id"]
    r = [n for n, _ in rules.RULES.get(p, ())]
    if p in NA or (p not in scopes.REF and not r):
        na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
        continue
    tech = "; ".join(([REFT] if p in scopes.REF else []) + (["dataflow/effect rule: " + ", ".join(r)] if r else []))
    note = ("Static, over every path and input of the analysed functions, arithmetic over the reals; trusts the reviewed reference definitions in /verif/ref "
            "and the documented meaning of numpy/scipy/sklearn calls; components that cannot be decided are counted in the evidence and raise no alarm."
            if p in scopes.REF else
            "Static rule over every construct of the freshly parsed source (may-analysis with alias tracking); constructs outside the interpreted fragment are counted, not alarmed.")
    cmd = "python3 /verif/check.py --property %s" % p
    checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd=cmd + " --tier thorough", technique=tech, level="other", level_note=note))
json.dump(dict(version=1, setup_cmd="python3 -m compileall -q /verif/sa /verif/check.py", checks=checks, not_applicable=na), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
