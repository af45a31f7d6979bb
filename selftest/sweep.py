#!/usr/bin/env python3
"""Development aid: behaviour-preserving edits (ref) must leave every obligation of the module quiet, mutants (mut) should not.

usage: sweep.py ref|mut N-per-function substr[,substr] [kinds]     (V=1: also list undecided; RULES=1: also run the effect rules)"""
import os
import random
import re
import sys
import time

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from selftest.refactor import refactorings  # noqa: E402
from selftest.mutate import mutants  # noqa: E402
from sa import refcheck, rules, engine  # noqa: E402
from sa.project import Project  # noqa: E402

REF = Project(refcheck.REFROOT)
BASE = Project("/repo")
ANY = [re.compile(".*")]
RULEFN = {"C01": rules.c01_one, "C02": rules.c02_one, "C04": rules.c04_one, "C15": rules.c15_one, "C16": rules.c16_one}


def work(job):
    f, rel, kind, desc, src, mode = job
    t0 = time.time()
    try:
        P = Project("/repo", {rel: src})
        ctx = refcheck.Ctx(code=P, ref=REF)
    except Exception as e:
        return f, kind, desc, "exc", repr(e), 0
    mod = BASE.func(f).mod.name
    res, unk, n = [], [], 0
    for q, cq in ctx.obligations:
        if not q.startswith(mod + "."):
            continue
        if mode == "mut" and f in dict(ctx.obligations) and q != f and cq is None:
            continue
        try:
            d, note = refcheck.check_obligation(ctx, q, cq, ANY, seconds=100)
        except Exception as e:
            d, note = {"analysis": ("unknown", repr(e))}, ""
        for c, (st, txt) in d.items():
            n += 1
            if st == "different":
                res.append("%s %s: %s" % (q.replace("regain.", ""), c, txt[:int(os.environ.get("W", 700))]))
            elif st == "unknown":
                unk.append("%s %s: %s" % (q.replace("regain.", ""), c, txt[:200]))
        if mode == "mut" and res:
            break
    if os.environ.get("RULES") and not (mode == "mut" and res):
        for p, fn in RULEFN.items():
            known = engine.known_findings(p)
            src = list(refcheck.public_obligations(P))
            if p == "C16":
                src = list(dict.fromkeys(src + list(rules.private_functions(P))))
            for q, cq in src:
                if not q.startswith(mod + ".") or rules.scopes.SKIP.search(q) or not rules.SELECT[p](P, q, cq):
                    continue
                try:
                    out, k, u = fn(P, q, cq)
                except Exception as e:
                    unk.append("%s rule %s: %r" % (q, p, e))
                    continue
                for fd in out:
                    F = engine.Finding(*fd)
                    if not any(re.search(k["match"], F.key) for k in known):
                        res.append("%s %s" % (p, F.report()))
    s = "different" if res else "unknown" if unk else "equal"
    return f, kind, desc, s, (res or unk or [""])[0], time.time() - t0


if __name__ == "__main__":
    from multiprocessing import Pool
    from collections import Counter
    mode, N, sel = sys.argv[1], int(sys.argv[2]), sys.argv[3].split(",")
    kinds = sys.argv[4].split(",") if len(sys.argv) > 4 else None
    random.seed(int(os.environ.get("SEED", 2)))
    jobs = []
    for g in BASE.all_functions():
        if not any(s in g.qual for s in sel) or rules.scopes.SKIP.search(g.qual) or g.mod.external:
            continue
        if mode == "ref":
            ms = list(refactorings(g.mod.src, g.node.lineno, g.name, kinds, N))
        else:
            ms = [("mut", d, s) for d, s in mutants(g.mod.src, g.node.lineno, g.name)]
        if len(ms) > N:
            ms = random.sample(ms, N)
        jobs += [(g.qual, g.path, k, d, s, mode) for k, d, s in ms]
    print(len(jobs), "variants", flush=True)
    c = Counter()
    with Pool(8) as pool:
        for q, k, d, s, w, dt in pool.imap_unordered(work, jobs, chunksize=1):
            c[s] += 1
            if mode == "ref":
                c[k, s] += 1
            bad = s in ("different", "exc") if mode == "ref" else s in ("equal", "exc", "unknown")
            if bad or (os.environ.get("V") and s == "unknown"):
                print("%s %s %s %s | %s" % (s, q.replace("regain.", ""), k, d, w[:int(os.environ.get("W", 700))]), flush=True)
    print(c)
