"""Compare every selected public function of /repo with its reference definition."""
import os
import re
import signal
import time

from .project import Project, ClassInfo, AnalysisBroken
from .model import build, compare_models
from .compare import Verdict, deep
from . import scopes
from .terms import walk

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFROOT = os.path.join(HERE, "ref")
MUTATORS = {"regain.utils.normalize_matrix", "regain.utils.ensure_posdef", "regain.math.fill_diagonal"}


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


class Ctx:
    """the analysed program, the reference program, and which calls are compared as calls"""

    def __init__(self, code=None, ref=None):
        self.code = code or Project()
        self.ref = ref or Project(REFROOT)
        cq = {f.qual for f in self.code.all_functions()}
        rq = {f.qual for f in self.ref.all_functions()}
        self.both = cq & rq
        self.obligations = list(public_obligations(self.ref))

    def atoms(self, own):
        def at(q):
            return q != own and q in self.both and q not in MUTATORS and scopes.is_atom(q)
        return at


def public_obligations(p):
    """(qualified name, class or None): public functions, and public methods of every class as seen through inheritance"""
    for m in p.modules.values():
        for f in m.functions.values():
            # private functions whose calls are compared as calls are obligations as well
            if not f.name.startswith("_") or scopes.is_atom(f.qual):
                yield f.qual, None
        for c in m.classes.values():
            seen = set()
            for x in p.mro(c):
                if not isinstance(x, ClassInfo):
                    continue
                if x.mod.external:
                    seen |= set(x.methods)
                    continue
                for n, f in x.methods.items():
                    if n in seen or (n.startswith("_") and n not in ("__init__", "_decision_function", "_format_results")):
                        continue
                    seen.add(n)
                    yield c.qual + "." + n, c.qual


def locate(p, qual, cq):
    if cq is None:
        return p.func(qual), None
    c = p.cls(cq)
    f = p.find_method(c, qual.rsplit(".", 1)[1])
    if f is None or f.mod.external:
        raise AnalysisBroken("method %s not found" % qual)
    return f, c


def run_one(ctx, qual, cq, inline=()):
    """-> dict component -> Verdict"""
    from .vg import Interp
    from .model import Model
    fc, cc = locate(ctx.code, qual, cq)
    fr, cr = locate(ctx.ref, qual, cq)
    base = ctx.atoms(fr.qual)
    at = (lambda q: q not in inline and base(q)) if inline else base
    i1 = Interp(ctx.code, at)
    a = Model(i1, i1.run_function(fc, self_cls=cc or fc.cls))
    i2 = Interp(ctx.ref, at, uid0=100000)
    b = Model(i2, i2.run_function(fr, self_cls=cr or fr.cls))
    out, al = compare_models(a, b)
    if not inline:
        out["signature"] = signature(fc, fr)
    return out, a, b, al


def signature(fc, fr):
    import ast
    names = fc.params()
    for i, p in enumerate(fr.pos):
        if p not in names and fc.kwarg is None:
            return Verdict("different", "parameter %s is gone" % p)
        d0, d1 = fr.defaults.get(p), fc.defaults.get(p)
        if d0 is not None and d1 is None:
            return Verdict("different", "parameter %s lost its default" % p)
        if d0 is not None and ast.dump(d0) != ast.dump(d1):
            if isinstance(d0, ast.Constant) and isinstance(d1, ast.Constant):
                if d0.value == d1.value and type(d0.value) is type(d1.value):
                    continue
                if isinstance(d0.value, (int, float)) and isinstance(d1.value, (int, float)) and d0.value == d1.value:
                    continue
                return Verdict("different", "default of %s is %r, reference %r" % (p, d1.value, d0.value))
            return Verdict("unknown", "default of %s is %s" % (p, ast.unparse(d1)))
    for a, b in zip([x for x in names if x in fr.pos], fr.pos):
        if a != b:
            return Verdict("different", "parameter order changed: %s where %s was" % (a, b))
    extra = [p for p in names if p not in fr.params() and p not in fc.defaults]
    if extra:
        return Verdict("different", "new required parameter %s" % extra[0])
    return Verdict("equal")


def calls_of(m):
    ts = [m.value] + list(m.fields.values()) + [v for v, _ in m.params.values()] + [t for _, t, _ in m.effects]
    ts += [x[0] for x in m.raises] + [x[0] for x in m.warns]
    for l in m.loops:
        ts += [v for v in list(l.next.values()) + list(l.init.values()) if v is not None] + [b[0] for b in l.breaks]
    s, seen = set(), set()
    for t in ts:
        s |= {x.args[1] for x in walk(t, seen) if x.op == "glob" and x.args[0] == "func"}
    return s


def same_component(k, al, out2, al2):
    """the verdict of the expanded comparison on component k (loops are numbered differently there)"""
    if "@" not in k or al2 is None:
        return out2.get(k)
    name, n = k.rsplit("@", 1)
    node = al.pairs[int(n)][1].node
    vs = [out2.get("%s@%d" % (name, j)) for j, (_, b) in enumerate(al2.pairs) if b.node is node]
    if not vs or None in vs:
        return None
    return next((v for v in vs if v.status != "equal"), vs[0])


def named(v):
    """library functions called in the differing parts of a verdict"""
    s = set()
    if v.left is not None:
        path = []
        for t in deep(v.left, v.right, path=path):
            s |= {x.args[1] for x in walk(t) if x.op == "glob" and x.args[0] == "func"}
        # which of a call's results is taken; the innermost call around the difference
        for l, r in path[-3:]:
            for t in (l, r):
                t = t.args[0] if t.op == "idx" else t
                if t.op == "call" and t.args[0].op == "glob" and t.args[0].args[0] == "func":
                    s.add(t.args[0].args[1])
    return s


def expand(ctx, qual, cq, res, bad, a, b, al, seconds):
    """differences may come from a call written out on one side, or from equivalent arguments: compare with those callees expanded"""
    diff = calls_of(a) ^ calls_of(b)
    inline = set(diff)
    for k in bad:
        inline |= named(res[k])
    if not inline:
        return
    t0 = time.time()
    todo = list(bad)
    try:
        for _ in range(3):
            signal.alarm(max(1, int(seconds - (time.time() - t0))))
            try:
                out2, a2, b2, al2 = run_one(ctx, qual, cq, inline)
            except AnalysisBroken:
                break
            # header values are compared by name in the expansion: its loops have to agree as well
            inner = [v for n, v in out2.items() if re.match(r"(next|init|exit|domain|loops)\b", n) and v.status != "equal"]
            inner.sort(key=lambda v: v.status != "different")
            more, left = calls_of(a2) ^ calls_of(b2), []
            for k in todo:
                v2 = same_component(k, al, out2, al2)
                if v2 is not None and v2.status == "equal" and inner:
                    v2 = inner[0]
                if v2 is not None and v2.status == "equal":
                    res[k] = v2
                    continue
                left.append(k)
                if diff and (v2 is None or v2.status == "unknown"):
                    res[k] = Verdict("unknown", "calls differ and the expanded comparison is undecided: " + res[k].why, res[k].left, res[k].right)
                elif v2 is not None and v2.status == "different":
                    more |= named(v2)
            todo = left
            if not todo or more <= inline:
                break
            inline |= more
    except Timeout:
        if diff:
            for k in todo:
                res[k] = Verdict("unknown", "calls differ and the expanded comparison ran out of time: " + res[k].why, res[k].left, res[k].right)


def private(qual, cq):
    return cq is None and qual.rsplit(".", 1)[1].startswith("_")


def discharge(ctx, qual, res, seconds):
    """a private function may change as long as every public function that calls it computes the same"""
    name = qual.rsplit(".", 1)[1]
    mods = [m.name for p in (ctx.code, ctx.ref) for m in p.modules.values() if name in m.src]
    worst, callers = "equal", 0
    for q, c in ctx.obligations:
        if private(q, c) or not any(q.startswith(m + ".") for m in mods):
            continue
        signal.alarm(seconds)
        try:
            out, a, b, _ = run_one(ctx, q, c)
            if qual not in calls_of(a) | calls_of(b):
                continue
            callers += 1
            out, a, b, _ = run_one(ctx, q, c, {qual})
        except AnalysisBroken:
            return
        st = {v.status for v in out.values()}
        if "different" in st:
            return
        if "unknown" in st:
            worst = "unknown"
    for k, v in res.items() if callers else ():
        if v.status != "equal":
            res[k] = Verdict("equal") if worst == "equal" else Verdict("unknown", "private function changed: " + v.why, v.left, v.right)


def role_change(v):
    """the difference exchanges, drops or adds a parameter"""
    def names(t):
        return {x.args[-1] for x in walk(t) if x.op in ("param", "self0")}
    if v.left is None:
        return False
    x, y = deep(v.left, v.right)
    return names(x) != names(y)


def check_obligation(ctx, qual, cq, comps, seconds=150):
    """-> (status dict component -> (status, text), note)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    try:
        signal.alarm(seconds)
        try:
            out, a, b, al = run_one(ctx, qual, cq)
        except AnalysisBroken as e:
            signal.alarm(0)
            if private(qual, cq):
                return {}, "gone"  # expanded where it was called
            return {"exists": ("different", str(e))}, "missing"
        res = {k: v for k, v in out.items() if any(re.search(c.pattern.replace("roles:", "", 1), k) for c in comps)}
        bad = [k for k, v in res.items() if v.status == "different" and k != "signature"]
        if bad:
            expand(ctx, qual, cq, res, bad, a, b, al, max(30, seconds - (time.time() - t0)))
        if private(qual, cq) and any(v.status != "equal" for v in res.values()):
            discharge(ctx, qual, res, seconds)
        signal.alarm(0)
        plain = [c for c in comps if not c.pattern.startswith("roles:")]
        for k in [k for k, v in res.items() if v.status == "different" and not any(c.search(k) for c in plain)]:
            if not role_change(res[k]):
                res[k] = Verdict("equal")  # no hyper-parameter involved
        return {k: (v.status, v.text() if v.status != "equal" else "") for k, v in res.items()}, "%.1fs" % (time.time() - t0)
    except Timeout:
        return {"analysis": ("unknown", "time limit")}, "timeout"
    except RecursionError:
        signal.alarm(0)
        return {"analysis": ("unknown", "recursion limit")}, "recursion"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


_ctx = None


def _work(job):
    qual, cq, comps = job
    try:
        return job[0], check_obligation(_ctx, qual, cq, [re.compile(c) for c in comps])
    except Exception as e:  # an analysis limitation must not look like an alarm
        import traceback
        return job[0], ({"analysis": ("unknown", "internal: %r" % e)}, traceback.format_exc())


def run(ctx, jobs, procs=None):
    """jobs: [(qual, class qual, [component regex])] -> {qual: (components, note)}"""
    global _ctx
    import multiprocessing as mp
    import sys
    sys.setrecursionlimit(20000)
    _ctx = ctx
    procs = procs or min(8, os.cpu_count() or 2)
    if procs == 1 or len(jobs) <= 1:
        return dict(_work(j) for j in jobs)
    heavy = lambda j: (0 if re.search(r"glm_time|kernel|latent_time|ising|gaussian|stability|wishart", j[0]) else 1)
    jobs = sorted(jobs, key=heavy)
    with mp.get_context("fork").Pool(procs) as pool:
        return dict(pool.imap_unordered(_work, jobs, chunksize=1))
