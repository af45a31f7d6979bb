#!/usr/bin/env python3
"""Development aid: hand-written edits.  A spec file holds edits in the form

    === name [kind]            kind: ref (behaviour kept) or bug:<property>
    --- regain/path.py
    <<<<
    old text
    ====
    new text
    >>>>

usage: hand.py SPEC... [name-substring]      every ref edit must stay quiet, every bug should raise its property's alarm"""
import os
import re
import subprocess
import sys
import time

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from sa import refcheck, rules, engine, scopes  # noqa: E402
from sa.project import Project  # noqa: E402

REF = Project(refcheck.REFROOT)
RULEFN = {"C01": rules.c01_one, "C02": rules.c02_one, "C04": rules.c04_one, "C15": rules.c15_one, "C16": rules.c16_one}
ANY = [re.compile(".*")]


def parse(path):
    out, cur, mode, f = [], None, None, None
    for line in open(path).read().split("\n"):
        if line.startswith("=== "):
            m = re.match(r"=== (\S+) \[(.+)\]", line)
            cur = dict(name=m.group(1), kind=m.group(2), edits=[])
            out.append(cur)
        elif line.startswith("--- "):
            f = line[4:].strip()
        elif line == "<<<<":
            mode, old, new = "old", [], []
        elif line == "====":
            mode = "new"
        elif line == ">>>>":
            cur["edits"].append((f, "\n".join(old), "\n".join(new)))
            mode = None
        elif mode == "old":
            old.append(line)
        elif mode == "new":
            new.append(line)
    return out


def apply(e, root="/repo"):
    src = {}
    for f, old, new in e["edits"]:
        s = src.get(f) or open(os.path.join(root, f)).read()
        k = s.count(old)
        if k != 1:
            raise SystemExit("%s: old text occurs %d times in %s:\n%s" % (e["name"], k, f, old))
        src[f] = s.replace(old, new)
    return src


def findings(src):
    """-> [(property, text)], [unknown text]"""
    P = Project("/repo", src)
    ctx = refcheck.Ctx(code=P, ref=REF)
    mods = {f[:-3].replace("/", ".") for f in src}
    quals = [q for q, _ in ctx.obligations]
    sel = {p: scopes.select(p, quals) for p in scopes.REF}
    res, unk = [], []
    near = [(q, cq) for q, cq in ctx.obligations]
    # obligations whose outcome can depend on the edit: those that reach an edited module (cheap over-approximation: compare everything in it, and what inlines it)
    for q, cq in near:
        if os.environ.get("ALLOB") is None and not any(q.startswith(m + ".") for m in mods):
            c = P.cls(cq) if cq else None
            if not (c is not None and any(getattr(getattr(x, "mod", None), "name", None) in mods for x in P.mro(c))):
                continue
        d, note = refcheck.check_obligation(ctx, q, cq, ANY, seconds=100)
        for comp, (st, txt) in d.items():
            if st == "different":
                ps = [p for p in sel if q in sel[p] and any(c.search(comp) for c in sel[p][q]) or comp == "exists"]
                res.append((sorted(ps), "%s %s: %s" % (q.replace("regain.", ""), comp, txt)))
            elif st == "unknown":
                unk.append("%s %s: %s" % (q.replace("regain.", ""), comp, txt))
    for p, fn in RULEFN.items():
        known = engine.known_findings(p)
        obs = list(refcheck.public_obligations(P))
        if p == "C16":
            obs = list(dict.fromkeys(obs + list(rules.private_functions(P))))
        for q, cq in obs:
            if not any(q.startswith(m + ".") for m in mods):
                continue
            if scopes.SKIP.search(q) or not rules.SELECT[p](P, q, cq):
                continue
            try:
                out, k, u = fn(P, q, cq)
            except Exception as e:
                unk.append("%s rule %s: %r" % (q, p, e))
                continue
            for fd in out:
                F = engine.Finding(*fd)
                if not any(re.search(k["match"], F.key) for k in known):
                    res.append(([p], F.report()))
    return res, unk


def work(e):
    t0 = time.time()
    try:
        src = apply(e)
        for f, s in src.items():
            compile(s, f, "exec")
        r, u = findings(src)
    except SystemExit as x:
        return e, None, [str(x)], 0
    except Exception:
        import traceback
        return e, None, [traceback.format_exc()], 0
    return e, r, u, time.time() - t0


if __name__ == "__main__":
    from multiprocessing import Pool
    specs = [a for a in sys.argv[1:] if os.path.exists(a)]
    sub = [a for a in sys.argv[1:] if not os.path.exists(a)]
    es = [e for s in specs for e in parse(s) if not sub or any(x in e["name"] for x in sub)]
    W = int(os.environ.get("W", 500))
    with Pool(8) as pool:
        for e, r, u, dt in pool.imap_unordered(work, es, chunksize=1):
            if r is None:
                print("ERROR   %s %s" % (e["name"], u[0]), flush=True)
                continue
            ps = sorted({p for x, _ in r for p in x})
            if e["kind"] == "ref":
                st = "ALARM" if r else "unk" if u else "quiet"
            else:
                want = e["kind"].split(":")[1].split(",")
                st = "caught" if any(w in ps for w in want) else "OTHER" if ps else "MISSED(unk)" if u else "MISSED"
            print("%-8s %s [%s] %s %.0fs" % (st, e["name"], e["kind"], ",".join(ps), dt), flush=True)
            if st in ("ALARM", "OTHER") or os.environ.get("V"):
                for _, x in r[:3]:
                    print("     ! " + x[:W].replace("\n", "\n       "), flush=True)
            if u and (os.environ.get("V") or st.startswith("MISSED")):
                for x in u[:3]:
                    print("     ? " + x[:W].replace("\n", "\n       "), flush=True)
