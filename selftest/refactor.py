"""Behaviour-preserving rewrites of one function at a time (in memory, never executed): the
comparison must not report a definite difference on any of them."""
import ast
import copy
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def names_in(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def blocks(fn):
    """every statement list of the function (not of nested functions)"""
    out = []

    def go(n):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append((n, fld))
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        go(s)
    go(fn)
    return out


SIMPLE = (ast.Assign, ast.AugAssign, ast.Return, ast.Expr)


def own_exprs(s):
    """sub-expressions of a simple statement evaluated unconditionally, exactly once"""
    v = s.value
    if v is None:
        return
    stack = [(v, 0)]
    while stack:
        x, d = stack.pop()
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.BoolOp, ast.IfExp, ast.Compare, ast.Starred, ast.JoinedStr)):
            continue
        if d and isinstance(x, (ast.Call, ast.BinOp, ast.Subscript)):
            yield x
        for c in ast.iter_child_nodes(x):
            if isinstance(c, ast.expr):
                stack.append((c, d + 1))
            elif isinstance(c, ast.keyword):
                stack.append((c.value, d + 1))


class Repl(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def generic_visit(self, n):
        for k, v in self.m:
            if n is k:
                return v
        return super().generic_visit(n)

    def visit(self, n):
        for k, v in self.m:
            if n is k:
                return v
        return super().visit(n)


def parse1(s):
    return ast.parse(s).body


def N(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


TRANSFORMS = {}


def transform(f):
    TRANSFORMS[f.__name__] = f
    return f


@transform
def extract_temp(fn, mod):
    k = 0
    for owner, fld in blocks(fn):
        for i, s in enumerate(getattr(owner, fld)):
            if isinstance(s, SIMPLE):
                for e in list(own_exprs(s)):
                    def do(s=s, e=e, owner=owner, fld=fld):
                        b = getattr(owner, fld)
                        j = b.index(s)
                        s2 = Repl([(e, N("tmp_x"))]).visit(s)
                        b[j:j + 1] = [ast.Assign([N("tmp_x", ast.Store())], e, lineno=s.lineno), s2]
                    yield "extract %s" % ast.unparse(e)[:50], do


@transform
def rename_locals(fn, mod):
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + ([fn.args.vararg] if fn.args.vararg else []) + ([fn.args.kwarg] if fn.args.kwarg else [])}
    loc = names_in(fn, ast.Store) - params
    inner = {x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn}
    for x in ast.walk(fn):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
            params |= {a.arg for a in x.args.args}
    loc -= params
    loc -= inner
    glob = {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    loc -= glob
    if loc:
        def do():
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and x.id in loc:
                    x.id = x.id + "_rn"
        yield "rename all", do


@transform
def invert_if(fn, mod):
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and x.orelse:
            def do(x=x):
                x.test = ast.UnaryOp(ast.Not(), x.test)
                x.body, x.orelse = x.orelse, x.body
            yield "invert if %s" % ast.unparse(x.test)[:40], do
        if isinstance(x, ast.IfExp):
            def do(x=x):
                x.test = ast.UnaryOp(ast.Not(), x.test)
                x.body, x.orelse = x.orelse, x.body
            yield "invert ifexp %s" % ast.unparse(x.test)[:40], do


@transform
def ternary_to_if(fn, mod):
    for owner, fld in blocks(fn):
        for s in getattr(owner, fld):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                def do(s=s, owner=owner, fld=fld):
                    b = getattr(owner, fld)
                    j = b.index(s)
                    e = s.value
                    b[j] = ast.If(e.test, [ast.Assign(s.targets, e.body, lineno=1)], [ast.Assign(copy.deepcopy(s.targets), e.orelse, lineno=1)])
                yield "ternary %s" % ast.unparse(s)[:40], do
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                def do(s=s, owner=owner, fld=fld):
                    b = getattr(owner, fld)
                    j = b.index(s)
                    e = s.value
                    b[j:j + 1] = [ast.If(e.test, [ast.Return(e.body)], []), ast.Return(e.orelse)]
                yield "ternary return", do


def has(n, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


def loop_level_has(body, *kinds):
    for s in body:
        if isinstance(s, kinds):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            if isinstance(s, (ast.For, ast.While)) and loop_level_has(s.orelse, *kinds):
                return True
            continue
        for fld in ("body", "orelse", "finalbody"):
            if loop_level_has(getattr(s, fld, []), *kinds):
                return True
        for h in getattr(s, "handlers", []):
            if loop_level_has(h.body, *kinds):
                return True
    return False


@transform
def for_to_while(fn, mod):
    for owner, fld in blocks(fn):
        for s in getattr(owner, fld):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" \
                    and len(s.iter.args) <= 2 and isinstance(s.target, ast.Name) and not loop_level_has(s.body, ast.Continue) \
                    and s.target.id not in {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}:
                def do(s=s, owner=owner, fld=fld):
                    b = getattr(owner, fld)
                    j = b.index(s)
                    lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
                    hi = s.iter.args[-1]
                    body = [ast.Assign([N(s.target.id, ast.Store())], N("cnt_x"), lineno=1)] + s.body + parse1("cnt_x += 1")
                    w = ast.While(ast.Compare(N("cnt_x"), [ast.Lt()], [N("end_x")]), body, s.orelse)
                    b[j:j + 1] = [ast.Assign([N("cnt_x", ast.Store())], lo, lineno=1), ast.Assign([N("end_x", ast.Store())], hi, lineno=1), w]
                yield "for->while %s" % ast.unparse(s.iter)[:40], do


@transform
def comp_to_loop(fn, mod):
    for owner, fld in blocks(fn):
        for s in getattr(owner, fld):
            if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)) and s.value is not None:
                for e in ([s.value] + list(own_exprs(s))):
                    cands = [e] + (list(e.args) if isinstance(e, ast.Call) else [])
                    for c in cands:
                        if isinstance(c, (ast.ListComp, ast.GeneratorExp)) and len(c.generators) == 1:
                            def do(s=s, c=c, owner=owner, fld=fld):
                                b = getattr(owner, fld)
                                j = b.index(s)
                                g = c.generators[0]
                                app = parse1("acc_x.append(0)")[0]
                                app.value.args = [c.elt]
                                body = [app]
                                for t in reversed(g.ifs):
                                    body = [ast.If(t, body, [])]
                                lp = ast.For(g.target, g.iter, body, [], lineno=1)
                                s2 = Repl([(c, N("acc_x"))]).visit(s)
                                b[j:j + 1] = parse1("acc_x = []") + [lp, s2]
                            yield "comp->loop %s" % ast.unparse(c)[:50], do


def stringy(n):
    return any(isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n))


@transform
def commute(fn, mod):
    for x in ast.walk(fn):
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Mult)) and not stringy(x):
            def do(x=x):
                x.left, x.right = x.right, x.left
            yield "commute %s" % ast.unparse(x)[:50], do


@transform
def flip_compare(fn, mod):
    F = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in F:
            def do(x=x):
                x.left, x.comparators[0] = x.comparators[0], x.left
                x.ops[0] = F[type(x.ops[0])]()
            yield "flip %s" % ast.unparse(x)[:50], do


@transform
def aug_to_assign(fn, mod):
    for owner, fld in blocks(fn):
        for s in getattr(owner, fld):
            if isinstance(s, ast.AugAssign):
                def do(s=s, owner=owner, fld=fld):
                    b = getattr(owner, fld)
                    j = b.index(s)
                    t = copy.deepcopy(s.target)
                    for y in ast.walk(t):
                        if hasattr(y, "ctx") and y is t:
                            y.ctx = ast.Load()
                    b[j] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value), lineno=1)
                yield "aug->assign %s" % ast.unparse(s)[:50], do


@transform
def kwargs_dict(fn, mod):
    for owner, fld in blocks(fn):
        for s in getattr(owner, fld):
            if isinstance(s, SIMPLE) and isinstance(s.value, ast.Call) and len([k for k in s.value.keywords if k.arg]) >= 2 \
                    and all(k.arg for k in s.value.keywords):
                def do(s=s, owner=owner, fld=fld):
                    b = getattr(owner, fld)
                    j = b.index(s)
                    c = s.value
                    d = ast.Call(N("dict"), [], c.keywords)
                    c.keywords = [ast.keyword(None, N("opts_x"))]
                    b[j:j + 1] = [ast.Assign([N("opts_x", ast.Store())], d, lineno=1), s]
                yield "kwargs dict %s" % ast.unparse(s.value.func)[:40], do


@transform
def reverse_keywords(fn, mod):
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and len(x.keywords) >= 2 and all(k.arg for k in x.keywords):
            def do(x=x):
                x.keywords.reverse()
            yield "reverse kw %s" % ast.unparse(x.func)[:40], do


@transform
def extract_helper(fn, mod):
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | ({fn.args.kwarg.arg} if fn.args.kwarg else set()) | ({fn.args.vararg.arg} if fn.args.vararg else set())
    local = names_in(fn, ast.Store) | params
    nested = {x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn}
    for owner, fld in blocks(fn):
        b = getattr(owner, fld)
        for i in range(len(b)):
            for ln in (1, 2, 4):
                seg = b[i:i + ln]
                if len(seg) < ln or any(has(s, ast.Return, ast.FunctionDef, ast.Yield, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.Lambda) for s in seg):
                    continue
                if loop_level_has(seg, ast.Break, ast.Continue):
                    continue
                if isinstance(seg[0], ast.Expr) and isinstance(seg[0].value, ast.Constant):
                    continue
                st = set()
                for s in seg:
                    st |= names_in(s, ast.Store)
                if nested & set().union(*[names_in(s) for s in seg]):
                    continue
                # comprehension variables are not outputs
                comp = {y.id for s in seg for x in ast.walk(s) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
                outs = sorted(st - comp)
                rd = set()
                for s in seg:
                    rd |= names_in(s, ast.Load)
                    rd |= {x.target.id for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
                # conditional stores need the old value as input
                # names certainly bound before: params, or stored in an earlier statement of an enclosing unconditional block
                ins = sorted((rd & local) - comp | (set(outs) & bound_before(fn, owner, fld, i)))
                bb = bound_before(fn, owner, fld, i)
                must = must_store(seg)
                if not set(outs) <= (must | bb):
                    continue
                if not (set(ins) <= bb | must):
                    continue
                ins = [x for x in ins if x in bb]

                def do(seg=seg, ins=ins, outs=outs, owner=owner, fld=fld, i=i, ln=ln):
                    bl = getattr(owner, fld)
                    ret = ast.Return(ast.Tuple([N(o) for o in outs], ast.Load()) if len(outs) != 1 else N(outs[0]))
                    f = ast.FunctionDef(name="_helper_x", args=ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []),
                                        body=seg + ([ret] if outs else []), decorator_list=[], lineno=1)
                    call = ast.Call(N("_helper_x"), [N(x) for x in ins], [])
                    if not outs:
                        st2 = ast.Expr(call)
                    elif len(outs) == 1:
                        st2 = ast.Assign([N(outs[0], ast.Store())], call, lineno=1)
                    else:
                        st2 = ast.Assign([ast.Tuple([N(o, ast.Store()) for o in outs], ast.Store())], call, lineno=1)
                    bl[i:i + ln] = [st2]
                    mod.body.append(f)
                yield "helper %d stmts: %s" % (ln, ast.unparse(seg[0])[:40].split("\n")[0]), do


def must_store(seg):
    out = set()
    for s in seg:
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                for e in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                    if isinstance(e, ast.Name):
                        out.add(e.id)
        elif isinstance(s, ast.If) and s.orelse:
            out |= must_store(s.body) & must_store(s.orelse)
        elif isinstance(s, ast.With):
            out |= must_store(s.body)
    return out


def bound_before(fn, owner, fld, i):
    """names certainly bound when control reaches statement i of the block"""
    out = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | ({fn.args.kwarg.arg} if fn.args.kwarg else set()) | ({fn.args.vararg.arg} if fn.args.vararg else set())

    def find(n, f, path):
        if n is owner and f == fld:
            return path
        return None

    def go(n, acc):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)):
                continue
            a2 = set(acc)
            if isinstance(n, ast.For) and f == "body":
                a2 |= {y.id for y in ast.walk(n.target) if isinstance(y, ast.Name)}
            if n is owner and f == fld:
                return a2 | must_store(b[:i])
            for k, s in enumerate(b):
                if isinstance(s, ast.FunctionDef):
                    continue
                r = go(s, a2 | must_store(b[:k]))
                if r is not None:
                    return r
        return None
    r = go(fn, out)
    return out if r is None else r


@transform
def enumerate_to_range(fn, mod):
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "enumerate" \
                and len(x.iter.args) == 1 and isinstance(x.iter.args[0], ast.Name) and isinstance(x.target, ast.Tuple) and len(x.target.elts) == 2 \
                and isinstance(x.target.elts[0], ast.Name):
            def do(x=x):
                i, v = x.target.elts
                seq = x.iter.args[0]
                x.target = i
                x.iter = ast.Call(N("range"), [ast.Call(N("len"), [seq], [])], [])
                x.body.insert(0, ast.Assign([v], ast.Subscript(seq, N(i.id), ast.Load()), lineno=1))
            yield "enumerate->range", do


@transform
def zip_to_index(fn, mod):
    for x in ast.walk(fn):
        if isinstance(x, ast.comprehension) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "zip" \
                and isinstance(x.target, ast.Tuple) and len(x.iter.args) == len(x.target.elts) and all(isinstance(a, ast.Name) for a in x.iter.args):
            owner = [y for y in ast.walk(fn) if isinstance(y, (ast.ListComp, ast.GeneratorExp)) and x in y.generators]
            if not owner or len(owner[0].generators) != 1:
                continue

            def do(x=x, o=owner[0]):
                m = {t.id: a.id for t, a in zip(x.target.elts, x.iter.args) if isinstance(t, ast.Name)}
                if len(m) != len(x.iter.args):
                    return

                class R(ast.NodeTransformer):
                    def visit_Name(self, n):
                        if n.id in m and isinstance(n.ctx, ast.Load):
                            return ast.Subscript(N(m[n.id]), N("ix_x"), ast.Load())
                        return n
                o.elt = R().visit(o.elt)
                x.iter = ast.Call(N("range"), [ast.Call(N("len"), [x.iter.args[0]], [])], [])
                x.target = N("ix_x", ast.Store())
            yield "zip->index", do


@transform
def for_else_to_flag(fn, mod):
    for owner, fld in blocks(fn):
        for s in getattr(owner, fld):
            if isinstance(s, (ast.For, ast.While)) and s.orelse:
                def do(s=s, owner=owner, fld=fld):
                    b = getattr(owner, fld)
                    j = b.index(s)

                    def rep(body):
                        k = 0
                        while k < len(body):
                            t = body[k]
                            if isinstance(t, ast.Break):
                                body.insert(k, parse1("flag_x = True")[0])
                                k += 2
                                continue
                            if isinstance(t, (ast.If, ast.With, ast.Try)):
                                rep(t.body)
                                rep(getattr(t, "orelse", []))
                            k += 1
                    rep(s.body)
                    els, s.orelse = s.orelse, []
                    b[j:j + 1] = parse1("flag_x = False") + [s, ast.If(ast.UnaryOp(ast.Not(), N("flag_x")), els, [])]
                yield "for-else->flag", do


@transform
def guard_and(fn, mod):
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            def do(x=x):
                a = x.test.values
                x.test, x.body = a[0], [ast.If(a[1] if len(a) == 2 else ast.BoolOp(ast.And(), a[1:]), x.body, [])]
            yield "nest and", do


@transform
def synonyms(fn, mod):
    for x in ast.walk(fn):
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Pow) and isinstance(x.right, ast.Constant) and x.right.value == 2:
            def do(x=x):
                x.op, x.right = ast.Mult(), copy.deepcopy(x.left)
            yield "x**2 -> x*x: %s" % ast.unparse(x)[:30], do
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Div) and isinstance(x.right, ast.Constant) and x.right.value == 2:
            def do(x=x):
                x.op, x.right = ast.Mult(), ast.Constant(0.5)
            yield "x/2 -> x*.5: %s" % ast.unparse(x)[:30], do
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Sub):
            def do(x=x):
                x.op, x.right = ast.Add(), ast.UnaryOp(ast.USub(), x.right)
            yield "a-b -> a+(-b): %s" % ast.unparse(x)[:30], do
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            f = x.func
            if isinstance(f.value, ast.Name) and f.value.id == "np" and len(x.args) >= 1:
                if f.attr in ("dot", "matmul") and len(x.args) == 2 and not x.keywords:
                    def do(x=x):
                        l, r = x.args
                        x.func = ast.Attribute(N("np"), "matmul", ast.Load())
                    yield "dot->matmul %s" % ast.unparse(x)[:40], do
                if f.attr in ("sum", "mean", "max", "min") and isinstance(x.args[0], (ast.Name, ast.Attribute)) :
                    def do(x=x):
                        x.func = ast.Attribute(x.args[0], x.func.attr, ast.Load())
                        x.args = x.args[1:]
                    yield "np.%s(x)->x.%s" % (f.attr, f.attr), do
                if f.attr == "sqrt":
                    def do(x=x):
                        x.func, x.args = ast.Attribute(N("np"), "power", ast.Load()), [x.args[0], ast.Constant(0.5)]
                    yield "sqrt->pow", do
                if f.attr == "abs":
                    def do(x=x):
                        x.func = ast.Attribute(N("np"), "absolute", ast.Load())
                    yield "abs->absolute", do
                if f.attr == "zeros_like" and len(x.args) == 1 and not x.keywords:
                    def do(x=x):
                        x.func = ast.Attribute(N("np"), "zeros", ast.Load())
                        x.args = [ast.Attribute(x.args[0], "shape", ast.Load())]
                    yield "zeros_like->zeros(shape)", do
                if f.attr == "square":
                    def do(x=x):
                        x.func, x.args = ast.Attribute(N("np"), "power", ast.Load()), [x.args[0], ast.Constant(2)]
                    yield "square->power", do
                if f.attr == "copy":
                    def do(x=x):
                        x.func, x.args = ast.Attribute(N("np"), "array", ast.Load()), x.args
                    yield "np.copy->np.array", do
            if f.attr == "dot" and len(x.args) == 1 and not (isinstance(f.value, ast.Name) and f.value.id == "np"):
                def do(x=x):
                    a, b = x.func.value, x.args[0]
                    x.func, x.args = ast.Attribute(N("np"), "dot", ast.Load()), [a, b]
                yield "a.dot(b)->np.dot", do
            if f.attr == "copy" and not x.args and not x.keywords and isinstance(f.value, (ast.Name, ast.Subscript)):
                def do(x=x):
                    x.args = [x.func.value]
                    x.func = ast.Attribute(N("np"), "array", ast.Load())
                yield "x.copy()->np.array(x)", do
            if f.attr == "transpose" and isinstance(f.value, (ast.Name, ast.Subscript)) and f.value.__class__ is ast.Name and f.value.id != "np":
                def do(x=x):
                    x.args = [x.func.value] + ([x.args[0]] if len(x.args) == 1 else [ast.Tuple(x.args, ast.Load())] if x.args else [])
                    x.func = ast.Attribute(N("np"), "transpose", ast.Load())
                yield "x.transpose->np.transpose", do
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "squared_norm" and len(x.args) == 1:
            def do(x=x):
                e = x.args[0]
                x.func = ast.Attribute(N("np"), "sum", ast.Load())
                x.args = [ast.BinOp(e, ast.Pow(), ast.Constant(2))]
            yield "squared_norm->sum(x**2)", do


@transform
def swap_statements(fn, mod):
    """adjacent assignments to fresh names with disjoint reads and writes"""
    for owner, fld in blocks(fn):
        b = getattr(owner, fld)
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if not all(isinstance(q, ast.Assign) and all(isinstance(z, ast.Name) for z in q.targets) for q in (s, t)):
                continue
            ws, wt = names_in(s, ast.Store), names_in(t, ast.Store)
            rs, rt = names_in(s, ast.Load), names_in(t, ast.Load)
            if ws & (wt | rt) or wt & rs:
                continue
            if any("random" in ast.unparse(q) or ".pop(" in ast.unparse(q) for q in (s, t)):
                continue

            def do(i=i, owner=owner, fld=fld):
                bl = getattr(owner, fld)
                bl[i], bl[i + 1] = bl[i + 1], bl[i]
            yield "swap %s" % ast.unparse(s)[:40].split("\n")[0], do


@transform
def split_tuple_assign(fn, mod):
    for owner, fld in blocks(fn):
        for s in getattr(owner, fld):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and not has(s.targets[0], ast.Starred):
                def do(s=s, owner=owner, fld=fld):
                    b = getattr(owner, fld)
                    j = b.index(s)
                    out = [ast.Assign([N("pair_x", ast.Store())], s.value, lineno=1)]
                    for k, e in enumerate(s.targets[0].elts):
                        out.append(ast.Assign([e], ast.Subscript(N("pair_x"), ast.Constant(k), ast.Load()), lineno=1))
                    b[j:j + 1] = out
                if isinstance(s.value, (ast.Tuple, ast.Call)) and not isinstance(s.value, ast.GeneratorExp):
                    if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("zip", "map"):
                        continue
                    yield "split %s" % ast.unparse(s)[:40], do


@transform
def return_var(fn, mod):
    for owner, fld in blocks(fn):
        for s in getattr(owner, fld):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                def do(s=s, owner=owner, fld=fld):
                    b = getattr(owner, fld)
                    j = b.index(s)
                    b[j:j + 1] = [ast.Assign([N("result_x", ast.Store())], s.value, lineno=1), ast.Return(N("result_x"))]
                yield "return var", do


@transform
def early_else(fn, mod):
    """if c: return/raise/break ...; rest  ->  if c: ... else: rest"""
    for owner, fld in blocks(fn):
        b = getattr(owner, fld)
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                def do(i=i, owner=owner, fld=fld):
                    bl = getattr(owner, fld)
                    bl[i].orelse = bl[i + 1:]
                    del bl[i + 1:]
                yield "else after exit %s" % ast.unparse(s.test)[:30], do


@transform
def noop(fn, mod):
    for owner, fld in blocks(fn):
        def do(owner=owner, fld=fld):
            getattr(owner, fld).append(parse1("pass")[0]) if not isinstance(getattr(owner, fld)[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue)) else getattr(owner, fld).insert(0, parse1("_unused_x = None")[0])
        yield "noop", do


@transform
def lambda_to_def(fn, mod):
    for owner, fld in blocks(fn):
        for s in getattr(owner, fld):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Lambda) and isinstance(s.targets[0], ast.Name):
                def do(s=s, owner=owner, fld=fld):
                    b = getattr(owner, fld)
                    j = b.index(s)
                    b[j] = ast.FunctionDef(name=s.targets[0].id, args=s.value.args, body=[ast.Return(s.value.body)], decorator_list=[], lineno=1)
                yield "lambda->def", do


def refactorings(src, lineno, name, kinds=None, limit=None):
    import random
    tree = ast.parse(src)

    def fn_of(t):
        return [x for x in ast.walk(t) if isinstance(x, ast.FunctionDef) and x.name == name and x.lineno == lineno][0]
    sites = [(tn, k) for tn, tf in TRANSFORMS.items() if not kinds or tn in kinds for k in range(sum(1 for _ in tf(fn_of(tree), tree)))]
    if limit is not None and len(sites) > limit:
        sites = random.sample(sites, limit)
    for tn, k in sites:
        t2 = copy.deepcopy(tree)
        for j, (desc, do) in enumerate(TRANSFORMS[tn](fn_of(t2), t2)):
            if j == k:
                do()
                break
        t2 = ast.fix_missing_locations(t2)
        try:
            s2 = ast.unparse(t2)
            ast.parse(s2)
        except Exception:
            continue
        yield tn, desc, s2
