"""A function's analysed behaviour (value graph, loops, raises, warnings) and its comparison with a
reference definition, component by component."""
import copy

from .terms import *
from .terms import mk, const
from .algebra import head, binder, canon, to_rat, rat_const, equal, from_rat
from .compare import compare, Verdict, known, heads_of
from .vg import Interp


class Model:
    def __init__(self, interp, res):
        self.i, self.r = interp, res
        self.loops = sorted(res.loops, key=lambda l: l.uid)
        cl = lambda t: t if t is None else res.close(t)
        for l in self.loops:
            l.next = {k: cl(v) for k, v in l.next.items()}
            l.init = {k: cl(v) for k, v in l.init.items()}
            l.breaks = [(cl(b[0]),) + tuple(b[1:]) for b in l.breaks]
        self.value = res.term()
        self.fields = res.fields() if res.selfref is not None and res.st is not None else {}
        self.dynamic = any(e["kind"] == "setattr" and e["field"] is None for e in interp.events)
        self.events = res.events
        self.raises = [(cl(e["pc"]), exc_name(e["exc"]), e) for e in res.events if e["kind"] == "raise"]
        self.warns = [(cl(e["pc"]), e) for e in res.events if e["kind"] == "ext" and e["q"] in ("warnings.warn",)]
        self.axes = [(e["how"], e["style"], cl(e["operand"])) for e in res.events if e["kind"] == "axes"]
        self.approx = interp.approx
        self.params = res.params()
        self.effects = [(cl(e["pc"]), effect_term(e, cl), e) for e in res.events if e.get("stmt") and effect_name(e) in EFFECTS]
        self.raises += [(conj(cl(e["pc"]), mk("unfitted", cl(e["args"][0]), tuple(cl(x) for x in e["args"][1:]))), "NotFittedError", e)
                        for e in res.events if e["kind"] == "ext" and e["q"].endswith(".check_is_fitted") and e["args"]]


# statements executed for what they do outside the program's memory
EFFECTS = set("dump to_csv to_pickle to_excel save savez savetxt write writelines savemat makedirs mkdir addHandler removeHandler setLevel "
              "basicConfig setFormatter symlink rename remove unlink".split())


def effect_name(e):
    return e["attr"] if e["kind"] == "method" else e["q"].split(".")[-1]


def effect_term(e, cl):
    a = tuple(cl(x) for x in e["args"])
    kw = tuple(sorted((k, cl(v)) for k, v in e["kw"].items()))
    if e["kind"] == "method":
        return mk("tuple", (const(e["attr"]), cl(e["recv"])) + a + tuple(mk("tuple", (const(k), v)) for k, v in kw))
    return mk("tuple", (const(e["q"].split(".")[-1]),) + a + tuple(mk("tuple", (const(k), v)) for k, v in kw))


def exc_name(t):
    if t.op == "call":
        t = t.args[0]
    if t.op == "glob":
        return t.args[1].split(".")[-1]
    return "?"


def build(project, qual, atoms, uid0=0, self_cls=None, kinds=None, args=None, fields=None, max_calls=4000):
    f = project.func(qual)
    i = Interp(project, atoms, uid0=uid0, max_calls=max_calls)
    return Model(i, i.run_function(f, args=args, self_cls=self_cls or f.cls, self_fields=fields, param_kinds=kinds))


def live_loops(m, extra_terms=()):
    """loops whose header values or exit conditions survive in some output"""
    roots = [m.value] + list(m.fields.values()) + list(extra_terms) + [pc for pc, *_ in m.raises] + [pc for pc, _ in m.warns]
    roots += [v for v, _ in m.params.values()] + [x for pc, t, _ in m.effects for x in (pc, t)]
    live, todo = set(), list(roots)
    seen = set()
    by = {l.uid: l for l in m.loops}
    while todo:
        t = todo.pop()
        for x in walk(t, seen):
            if x.op in ("mu", "exited", "exhausted", "not_returned") and x.args[0] in by and x.args[0] not in live:
                live.add(x.args[0])
                l = by[x.args[0]]
                todo += [v for v in l.next.values() if v is not None] + [pc for pc, *_ in l.breaks]
                todo += [v for v in l.init.values() if v is not None]
                if l.ix is not None:
                    todo.append(l.ix)
    return [l for l in m.loops if l.uid in live]


def counter(lp):
    """while-loop induction variable -> (mu, ix) or None"""
    if lp.ix is not None or lp.cond is None:
        return None
    lits = lp.cond.args[0] if lp.cond.op == "and" else (lp.cond,)
    for c in lits:
        c2 = canon(c)
        if c2.op != "cmp" or c2.args[0] != "<":
            continue
        for x in walk(c2):
            if x.op == "mu" and x.args[0] == lp.uid:
                nx, init = lp.next.get(x.args[1]), lp.init.get(x.args[1])
                if nx is None or init is None:
                    continue
                if equal(nx, mk("bin", "+", x, const(1))):
                    d = to_rat(c2.args[2]).add(to_rat(x))  # bound = (bound - i) + i
                    hi = from_rat(d)
                    if any(y.op == "mu" and y.args[0] == lp.uid for y in walk(hi)):
                        continue
                    return x, mk("ix", canon(init), hi, const(1), 0), c
    return None


def level(lp, ix):
    """distinct names for nested loops over the same index set"""
    used, p = set(), lp.parent
    while p is not None:
        q = p.ix if p.ix is not None else getattr(p, "while_ix", None)
        if q is not None:
            used.add(q)
        p = p.parent
    while ix in used:
        ix = mk("ix", *ix.args[:3], ix.args[3] + 1)
    return ix


def exits(lp, brk, m):
    """exit j: the loop was left by a break and the condition of break j held; one of the breaks did"""
    pcs = [subst(pc, m) for pc, *_ in lp.breaks]
    for j, pc in enumerate(pcs):
        m[mk("exited", lp.uid, j).n] = conj(brk, pc) if j < len(pcs) - 1 else conj(brk, *[neg(p) for p in pcs[:-1]])


class Aligner:
    """maps loop-header values and exit conditions of code and reference onto common names"""

    def __init__(self, code, spec):
        self.code, self.spec = code, spec
        self.lc, self.ls = live_loops(code), live_loops(spec)
        self.ok = len(self.lc) == len(self.ls)
        self.why = "" if self.ok else "iterative loops: %d in the code, %d in the reference" % (len(self.lc), len(self.ls))
        self.mc, self.ms = {}, {}
        self.pairs = []
        self.unmapped = {}
        if not self.ok:
            return
        for k, (a, b) in enumerate(zip(self.lc, self.ls)):
            self.pair(k, a, b)
        # exit conditions in terms of the aligned names
        for k, (a, b) in enumerate(self.pairs):
            for lp, m in ((a, self.mc), (b, self.ms)):
                brk = mk("brk", k)
                exits(lp, brk, m)
                for x in list(walk_all(lp)):
                    if x.op == "exited" and x.args[0] == lp.uid and isinstance(x.args[1], str):
                        m[x.n] = mk("retd", k)
                m[mk("exhausted", lp.uid).n] = neg(brk)
                m[mk("not_returned", lp.uid).n] = neg(mk("retd", k))

    def pair(self, k, a, b):
        self.pairs.append((a, b))
        la, lb = dict(a.next), dict(b.next)
        for lp, m, names in ((a, self.mc, la), (b, self.ms, lb)):
            c = counter(lp)
            if c is not None:
                c = (c[0], level(lp, c[1]), c[2])
                m[c[0].n] = c[1]
                names.pop(c[0].args[1], None)
                lp.while_ix = c[1]
        un_c = [x for x in la if x not in lb]
        un_s = [x for x in lb if x not in la]
        for lab in lb:
            rep = mk("mu", "L%d" % k, lab, b.kind.get(lab, "unk"))
            for kd in {b.kind.get(lab, "unk"), "unk", "arr", "num", "list", "dict"}:
                self.ms[mk("mu", b.uid, lab, kd).n] = rep
            if lab in la:
                for kd in {a.kind.get(lab, "unk"), "unk", "arr", "num", "list", "dict"}:
                    self.mc[mk("mu", a.uid, lab, kd).n] = rep
        self.unmapped[k] = (un_c, un_s)

    def c(self, t):
        return subst(t, self.mc)

    def s(self, t):
        return subst(t, self.ms)

    def refine(self, rounds=40):
        """congruence partition refinement: identify header values of code and reference whose
        initial values and whose next values are equal under the identification"""
        items = []
        for side, loops in (("c", self.lc), ("s", self.ls)):
            for k, lp in enumerate(loops):
                for lab, nx in lp.next.items():
                    mu = mk("mu", lp.uid, lab, lp.kind.get(lab, "unk"))
                    items.append((side, k, lp, lab, mu, nx, lp.init.get(lab)))
        base = {}
        for side, k, lp, lab, mu, nx, init in items:
            c = counter(lp)
            if c is not None and c[0] is mu:
                base[mu.n] = level(lp, c[1])
        items = [x for x in items if x[4].n not in base]
        kindn = {}
        for x in items:
            kindn[x[4].n] = x[2].kind.get(x[3], "unk")
        # colour by loop and initial value (those that mention other loops are refined along with the next values)
        colour = {}
        reg = {}
        for x in items:
            i0 = canon(x[6]) if x[6] is not None and not any(y.op == "mu" for y in walk(x[6])) else None
            colour[x[4].n] = reg.setdefault((x[1], i0.n if i0 is not None else None), len(reg))
        for _ in range(rounds):
            m = dict(base)
            for x in items:
                col = colour[x[4].n]
                kd = "num" if all(kindn[y[4].n] == "num" for y in items if colour[y[4].n] == col) else "unk"
                m[x[4].n] = mk("mu", "C", "c%d" % col, kd)
            for side, loops in (("c", self.lc), ("s", self.ls)):
                for k, lp in enumerate(loops):
                    exits(lp, mk("brk", k), m)
                    m[mk("exhausted", lp.uid).n] = neg(mk("brk", k))
            reg2, new = {}, {}
            for x in items:
                key = (colour[x[4].n], canon(subst(x[5], m)).n if x[5] is not None else -1,
                       canon(subst(x[6], m)).n if x[6] is not None and any(y.op == "mu" for y in walk(x[6])) else -1)
                new[x[4].n] = reg2.setdefault(key, len(reg2))
            stable = len(set(new.values())) == len(set(colour.values()))
            colour = new
            if stable:
                return m
        return None


def without_loops(code, spec, al, extra):
    """the code, which has no loop left, computes what the reference gives when its loops do nothing"""
    m = {}
    for lp in al.ls:
        for lab in lp.next:
            for kd in {lp.kind.get(lab, "unk"), "unk", "arr", "num", "list", "dict"}:
                if lp.init.get(lab) is not None:
                    m[mk("mu", lp.uid, lab, kd).n] = lp.init[lab]
            if lp.init.get(lab) is not None and lp.next[lab] is not None and lp.next[lab].op != "const":
                m[lp.next[lab].n] = lp.init[lab]
        m[mk("exhausted", lp.uid).n] = TRUE
        m[mk("not_returned", lp.uid).n] = TRUE
        m[mk("exited", lp.uid, 0).n] = FALSE
    uids = {lp.uid for lp in al.ls}

    def cut(t):
        for _ in range(len(al.ls) + 1):
            t = subst(t, m)
        return t

    def looped(t):
        return any(x.op == "mu" and x.args[0] in uids for x in walk(t))
    pairs = [(code.value, spec.value)] + [(code.fields[f], t) for f, t in spec.fields.items() if f in code.fields]
    pairs += [(code.params.get(n, (t0, t0))[0], t) for n, (t, t0) in spec.params.items()]
    if not any(looped(b) for _, b in pairs):
        return None
    vocab = set(extra) | vocabulary(spec)
    for a, b in pairs:
        b = cut(b)
        if looped(b) or compare(a, b, vocab).status != "equal":
            return None
    return Verdict("different", "the iterations of the loop have no effect on the result", code.value, spec.value)


def unrolled(code, spec, al, extra, depth=2):
    """compare what leaves the loop in its first iterations: independent of the names of loop-carried values"""
    for k, (a, b) in enumerate(al.pairs):
        if a.parent is not None or b.parent is not None or (a.ix is None) != (b.ix is None):
            continue
        st = []
        for lp in (a, b):
            if any(v is None for v in list(lp.init.values()) + list(lp.next.values())) or set(lp.init) != set(lp.next):
                st = None
                break
            st.append({lab: t for lab, t in lp.init.items()})
        if st is None:
            continue
        others = {lp.uid for m in (code, spec) for lp in m.loops} - {a.uid, b.uid}

        def inst(lp, s, n):
            m = {}
            for lab, t in s.items():
                for kd in {lp.kind.get(lab, "unk"), "unk", "arr", "num", "list", "dict"}:
                    m[mk("mu", lp.uid, lab, kd).n] = t
            if lp.ix is not None:
                m[lp.ix.n] = canon(mk("bin", "+", lp.ix.args[0], mk("bin", "*", const(n), lp.ix.args[2])))
            return m

        def foreign(t):
            return any(x.op in ("mu", "exited", "exhausted", "not_returned") and x.args[0] in others | {a.uid, b.uid} for x in walk(t))
        for n in range(depth):
            ms = [inst(lp, s, n) for lp, s in zip((a, b), st)]
            ends = []
            for lp, m, mod in ((a, ms[0], code), (b, ms[1], spec)):
                e = subst(disj(*[pc for pc, *_ in lp.breaks]), m) if lp.breaks else FALSE
                m2 = dict(m)
                exits(lp, TRUE, m2)
                m2[mk("exhausted", lp.uid).n] = FALSE
                m2[mk("not_returned", lp.uid).n] = TRUE
                ends.append((e, subst(mod.value, m2), [subst(mod.fields[f], m2) for f in sorted(spec.fields) if f in mod.fields]))
            (ea, va, fa), (eb, vb, fb) = ends
            if not foreign(ea) and not foreign(eb):
                v = compare(ite(ea, const(1), const(0)), ite(eb, const(1), const(0)), extra)
                if v.status == "different":
                    return Verdict("different", "iteration %d leaves the loop under other conditions" % (n + 1), v.left, v.right, v.conds)
                if v.status == "equal" and ea is not FALSE:
                    for x, y in [(va, vb)] + (list(zip(fa, fb)) if len(fa) == len(fb) else []):
                        if not foreign(x) and not foreign(y):
                            v = compare(ite(ea, x, NONE), ite(eb, y, NONE), extra)
                            if v.status == "different":
                                return Verdict("different", "another result when the loop is left in iteration %d" % (n + 1), v.left, v.right, v.conds)
            st = [{lab: subst(t, m) for lab, t in lp.next.items()} for lp, m in zip((a, b), ms)]
    return None


def walk_all(lp):
    for v in lp.next.values():
        if v is not None:
            yield from walk(v)


def vocabulary(m):
    """every function and method the reference uses anywhere in this obligation"""
    ts = [m.value] + list(m.fields.values()) + [x[0] for x in m.raises] + [x[0] for x in m.warns]
    ts += [v for v, _ in m.params.values()] + [x for pc, t, _ in m.effects for x in (pc, t)]
    for l in m.loops:
        ts += [v for v in l.next.values() if v is not None] + [v for v in l.init.values() if v is not None] + [b[0] for b in l.breaks]
        if l.ix is not None:
            ts.append(l.ix)
        if l.cond is not None:
            ts.append(l.cond)
    out = set()
    for t in ts:
        out |= heads_of(t) | heads_of(canon(t))
    return out


def inside(x, lp):
    while x is not None:
        if x is lp:
            return True
        x = x.parent
    return False


def idle(spec, gone):
    """the reference with some loops never entered"""
    m = {}
    for lp in gone:
        for lab in lp.next:
            if lp.init.get(lab) is not None:
                for kd in {lp.kind.get(lab, "unk"), "unk", "arr", "num", "list", "dict"}:
                    m[mk("mu", lp.uid, lab, kd).n] = lp.init[lab]
                if lp.next[lab] is not None and lp.next[lab].op != "const":
                    m[lp.next[lab].n] = lp.init[lab]
        m[mk("exhausted", lp.uid).n] = TRUE
        m[mk("not_returned", lp.uid).n] = TRUE

    def cut(t):
        for _ in range(len(gone) + 1):
            if t is not None:
                t = subst(t, m)
        return t
    s = copy.copy(spec)
    s.loops = []
    for l in spec.loops:
        if l not in gone:
            k = copy.copy(l)
            k.next = {a: cut(b) for a, b in l.next.items()}
            k.init = {a: cut(b) for a, b in l.init.items()}
            k.breaks = [(cut(b[0]),) + tuple(b[1:]) for b in l.breaks]
            s.loops.append(k)
    s.value = cut(spec.value)
    s.fields = {a: cut(b) for a, b in spec.fields.items()}
    s.params = {a: (cut(b), c) for a, (b, c) in spec.params.items()}
    s.raises = [(cut(x[0]),) + tuple(x[1:]) for x in spec.raises]
    s.warns = [(cut(x[0]),) + tuple(x[1:]) for x in spec.warns]
    s.effects = [(cut(x[0]), cut(x[1])) + tuple(x[2:]) for x in spec.effects]
    return s


def out_names(spec, lp):
    """the outputs that depend on a loop"""
    def dep(t):
        return any(x.op in ("mu", "exited", "exhausted", "not_returned") and x.args[0] == lp.uid for x in walk(t))
    ns = (["value"] if dep(spec.value) else []) + ["field:" + f for f, t in spec.fields.items() if dep(t)] + ["param:" + n for n, (t, _) in spec.params.items() if dep(t)]
    return ns or ["value"]


def other_axes(code, spec, al):
    """the reference works on the last two axes of a stack where the code works on the first two, or on all"""
    def names(mod, f):
        d = {}
        for how, style, t in mod.axes:
            d.setdefault((how, canon(f(t)).n), []).append((style, t))
        return d
    c, s = names(code, al.c), names(spec, al.s)
    out = {}
    for k, us in s.items():
        if any(style != "last" for style, _ in us) or k not in c or any(style == "last" for style, _ in c[k]):
            continue
        how, t = k[0], c[k][0][1]
        forms = {mk(how, t).n}
        ts = [("value", code.value)] + [("field:" + f, x) for f, x in code.fields.items()] + [("param:" + p, x) for p, (x, _) in code.params.items()]
        ts += [("next:%s@%d" % (lab, j), x) for j, (a, _) in enumerate(al.pairs) for lab, x in a.next.items() if x is not None]
        hit = [n for n, x in ts if any(y.n in forms or y.op == "call" and head(y.args[0]) == "numpy.swapaxes" and y.args[1][0] is t for y in walk(x))]
        for n in hit or ["value"]:
            out[n] = Verdict("different", "%s of a stack of matrices taken along other axes than the last two: %s" % (
                {"tr": "transpose", "diag": "diagonal"}[how], show(t)[:200]))
    return out


def compare_models(code, spec, extra=(), dropped=False):
    """-> dict component -> Verdict.  Components: value, field:<f>, next:<label>@k, exit@k, domain@k, raise, warn"""
    out = {}
    al = Aligner(code, spec)
    if not al.ok:
        out["loops"] = Verdict("unknown", al.why)
        if al.lc and len(al.lc) < len(al.ls) and not code.approx and not dropped:
            for lp in al.ls:
                inner = [x for x in al.ls if x is lp or inside(x, lp)]
                if lp.parent is None and len(al.ls) - len(inner) == len(al.lc):
                    o2, _ = compare_models(code, idle(spec, inner), extra, True)
                    if all(v.status == "equal" for v in o2.values()):
                        for n in out_names(spec, lp):
                            out[n] = Verdict("different", "the iterations of the loop over %s have no effect on the result" % ", ".join(sorted(lp.next)), code.value, spec.value)
                        break
        if not al.lc and not code.approx:
            v = without_loops(code, spec, al, extra)
            if v is None and is_const(code.value, None) and spec.value.op not in ("const", "ite"):
                v = Verdict("different", "nothing is returned", code.value, spec.value)
            if v is not None:
                out["value"] = v
        return out, al
    vocab = set(extra) | vocabulary(spec)

    rc = disj(*[x[0] for x in code.raises]) if code.raises else FALSE
    rs = disj(*[x[0] for x in spec.raises]) if spec.raises else FALSE
    raised = const("<raises>")

    def implied(c, s):
        m = {}
        for k, (a, b) in enumerate(al.pairs):
            x = mk("brk", k)
            pcs = [f(disj(*[pc for pc, *_ in lp.breaks])) for lp, f in ((a, c), (b, s)) if lp.breaks]
            m[x.n] = tuple({canon(disj(conj(x, p), conj(neg(x), neg(p)))) for p in pcs})
        return m
    imp = implied(al.c, al.s)

    def cmpx(name, a, b):
        try:
            cmpy(name, a, b)
        except (AttributeError, TypeError, ValueError, KeyError, IndexError, ArithmeticError, AssertionError) as e:
            out[name] = Verdict("unknown", "internal: %r" % e, None, None)

    def cmpy(name, a, b):
        out[name] = compare(al.c(a), al.s(b), vocab, implied=imp)
        if out[name].status != "equal" and name not in ("raise",) and (rc is not FALSE or rs is not FALSE):
            # the value is immaterial on paths that raise (which inputs raise is a component of its own)
            v = compare(al.c(ite(rc, raised, a)), al.s(ite(rs, raised, b)), vocab, implied=imp)
            if v.status == "equal":
                out[name] = v
    cmpx("value", code.value, spec.value)
    for f, t in spec.fields.items():
        if f in code.fields:
            cmpx("field:" + f, code.fields[f], t)
        else:
            out["field:" + f] = Verdict("equal") if t is mk("self0", f) else Verdict("unknown", "attributes set under computed names") \
                if code.dynamic else Verdict("different", "attribute %s is never set" % f)
    for n, (t, t0) in spec.params.items():
        cmpx("param:" + n, code.params.get(n, (t0, t0))[0], t)
    if spec.effects or code.effects:
        if [effect_name(x[2]) for x in code.effects] == [effect_name(x[2]) for x in spec.effects]:
            cmpx("effects", mk("tuple", tuple(ite(pc, t, NONE) for pc, t, _ in code.effects)),
                 mk("tuple", tuple(ite(pc, t, NONE) for pc, t, _ in spec.effects)))
        elif not code.effects:
            out["effects"] = Verdict("different", "no call of %s is left" % effect_name(spec.effects[0][2]))
        else:
            out["effects"] = Verdict("unknown", "other output calls than the reference")
    for k, (a, b) in enumerate(al.pairs):
        for lab, nx in b.next.items():
            if mk("mu", b.uid, lab, b.kind.get(lab, "unk")).n not in al.ms or al.ms[mk("mu", b.uid, lab, b.kind.get(lab, "unk")).n].op == "ix":
                continue
            if lab not in a.next:
                out["next:%s@%d" % (lab, k)] = Verdict("unknown", "loop-carried value %s of the reference has no namesake" % lab)
                continue
            if a.next[lab] is not None and nx is not None:
                n = "next:%s@%d" % (lab, k)
                cmpx(n, a.next[lab], nx)
                if out[n].status == "different" and (a.breaks or b.breaks):
                    # immaterial in the iteration that leaves the loop (which one that is, is a component of its own)
                    ea, eb = (disj(*[pc for pc, *_ in lp.breaks]) if lp.breaks else FALSE for lp in (a, b))
                    v = compare(al.c(ite(ea, raised, a.next[lab])), al.s(ite(eb, raised, nx)), vocab, implied=imp)
                    if v.status == "equal":
                        out[n] = v
            if a.init.get(lab) is not None and b.init.get(lab) is not None:
                cmpx("init:%s@%d" % (lab, k), a.init[lab], b.init[lab])
        ea = disj(*[pc for pc, *_ in a.breaks]) if a.breaks else FALSE
        eb = disj(*[pc for pc, *_ in b.breaks]) if b.breaks else FALSE
        cmpx("exit@%d" % k, ite(ea, const(1), const(0)), ite(eb, const(1), const(0)))
        da, db = a.ix or getattr(a, "while_ix", None), b.ix or getattr(b, "while_ix", None)
        if da is not None and db is not None:
            da, db = binder(da), binder(db)
            cmpx("domain@%d" % k, mk("tuple", da.args[:3]), mk("tuple", db.args[:3]))
    for kind, la, lb in (("raise", code.raises, spec.raises), ("warn", code.warns, spec.warns)):
        ca = disj(*[x[0] for x in la]) if la else FALSE
        cb = disj(*[x[0] for x in lb]) if lb else FALSE
        cmpx(kind, ite(ca, const(1), const(0)), ite(cb, const(1), const(0)))
    other = other_axes(code, spec, al)
    bad = [n for n, v in out.items() if v.status != "equal"]
    if bad and al.pairs:
        # names may have changed: try to prove equivalence by partition refinement
        m = al.refine()
        still = {}
        if m is not None:
            imp = implied(lambda t: subst(t, m), lambda t: subst(t, m))

        def cm2(a, b):
            if m is None:
                return Verdict("unknown", "refinement did not stabilise")
            return compare(subst(a, m), subst(b, m), vocab, implied=imp)
        for n in out:
            if n == "value":
                v = cm2(code.value, spec.value)
            elif n.startswith("field:"):
                f = n[6:]
                v = cm2(code.fields[f], spec.fields[f]) if f in code.fields else out[n]
            elif n.startswith("param:"):
                t, t0 = spec.params[n[6:]]
                v = cm2(code.params.get(n[6:], (t0, t0))[0], t)
            elif n == "effects":
                v = out[n] if [effect_name(x[2]) for x in code.effects] != [effect_name(x[2]) for x in spec.effects] else cm2(
                    mk("tuple", tuple(ite(pc, t, NONE) for pc, t, _ in code.effects)), mk("tuple", tuple(ite(pc, t, NONE) for pc, t, _ in spec.effects)))
            elif n.startswith("exit@"):
                a, b = al.pairs[int(n[5:])]
                v = cm2(ite(disj(*[pc for pc, *_ in a.breaks]) if a.breaks else FALSE, const(1), const(0)),
                        ite(disj(*[pc for pc, *_ in b.breaks]) if b.breaks else FALSE, const(1), const(0)))
            elif n in ("raise", "warn"):
                la, lb = (code.raises, spec.raises) if n == "raise" else (code.warns, spec.warns)
                v = cm2(ite(disj(*[x[0] for x in la]) if la else FALSE, const(1), const(0)),
                        ite(disj(*[x[0] for x in lb]) if lb else FALSE, const(1), const(0)))
            elif n.startswith("domain@"):
                v = out[n]
            else:
                continue
            still[n] = v
            if v.status != "equal":
                break
        if m is not None and all(v.status == "equal" for v in still.values()):
            # every observable output agrees: loop-internal naming is immaterial
            for n in bad:
                out[n] = Verdict("equal")
        elif any(al.unmapped[k][1] for k in al.unmapped):
            v = unrolled(code, spec, al, vocab)
            for n in bad:
                if v is not None:
                    if out[n].status == "different" or n.startswith("next:") and out[n].left is None:
                        out[n] = Verdict("different", v.why, v.left, v.right, v.conds)
                elif out[n].status == "different" and not rewrites(out[n].left, out[n].right):
                    out[n] = Verdict("unknown", "loop-carried values renamed; " + out[n].why, out[n].left, out[n].right)
    for n, v in other.items():
        if n in out and out[n].status != "different":
            out[n] = v
    skipped = [a for a in code.approx if a[2] != "not inlined"]
    if skipped:
        for n, v in out.items():
            if v.status == "different":
                out[n] = Verdict("unknown", "statement not interpreted: %s at line %d of %s" % (skipped[0][2], skipped[0][1], skipped[0][0]), v.left, v.right)
    return out, al


def rewrites(l, r):
    """the reference only ever appends to the sequence, the code also overwrites items it stored in earlier rounds"""
    if l is None or r is None or l.op != "list" or r.op != "list" or r.args[0].op != "mu" or l.args[0].op != "upd":
        return False
    b = l.args[0]
    while b.op == "upd":
        b = b.args[0]
    return b.op == "mu" and b.args[-1] == r.args[0].args[-1]
