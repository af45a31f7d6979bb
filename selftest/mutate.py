"""Sensitivity of the comparison: syntactic mutants of one function at a time, analysed in memory
(never executed), reported as detected (some component definitely different), unknown or missed."""
import ast
import copy
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.project import Project

SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
CSWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
         ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def sites(fn):
    """list of (description, mutator(copy of fn) )"""
    out = []
    nodes = list(ast.walk(fn))

    def add(i, desc, f):
        out.append((i, desc, f))
    names = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args + fn.args.kwonlyargs})
    for i, n in enumerate(nodes):
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            def f(m):
                m.op = SWAP[type(m.op)]()
            add(i, "%d: swap %s in %s" % (ln, type(n.op).__name__, ast.unparse(n)[:60]), f)
        if isinstance(n, ast.AugAssign) and type(n.op) in SWAP:
            def f(m):
                m.op = SWAP[type(m.op)]()
            add(i, "%d: swap aug %s" % (ln, ast.unparse(n)[:60]), f)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CSWAP:
            def f(m):
                m.ops[0] = CSWAP[type(m.ops[0])]()
            add(i, "%d: cmp %s" % (ln, ast.unparse(n)[:60]), f)
        if isinstance(n, ast.BoolOp):
            def f(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            add(i, "%d: boolop %s" % (ln, ast.unparse(n)[:60]), f)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            def f(m):
                m.value = m.value + 1
            add(i, "%d: const %r+1" % (ln, n.value), f)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def f(m):
                m.value = not m.value
            add(i, "%d: const %r" % (ln, n.value), f)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            def f(m):
                m.op = ast.UAdd() if isinstance(m.op, ast.USub) else ast.UAdd()
            add(i, "%d: drop unary %s" % (ln, ast.unparse(n)[:40]), f)
        if isinstance(n, ast.Call):
            if n.keywords:
                for k in range(len(n.keywords)):
                    def f(m, k=k):
                        m.keywords.pop(k)
                    add(i, "%d: drop kw %s of %s" % (ln, n.keywords[k].arg, ast.unparse(n.func)[:40]), f)
            if len(n.args) >= 2:
                def f(m):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                add(i, "%d: swap args %s" % (ln, ast.unparse(n)[:60]), f)
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                def f(m):
                    v = m.func.value
                    m.func = ast.Name("_ident_", ast.Load())
                    m.args = [v]
                add(i, "%d: drop copy %s" % (ln, ast.unparse(n)[:60]), f)
        if isinstance(n, ast.Attribute) and n.attr == "T":
            def f(m):
                m.attr = "real"
            add(i, "%d: drop .T %s" % (ln, ast.unparse(n)[:40]), f)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
            def f(m):
                k = names.index(m.id)
                m.id = names[(k + 1) % len(names)]
            add(i, "%d: name %s->%s" % (ln, n.id, names[(names.index(n.id) + 1) % len(names)]), f)
        if isinstance(n, (ast.FunctionDef, ast.For, ast.While, ast.If, ast.With)):
            for fld in ("body", "orelse"):
                for k, s in enumerate(getattr(n, fld, [])):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Pass)):
                        continue

                    def f(m, fld=fld, k=k):
                        getattr(m, fld)[k] = ast.Pass()
                    add(i, "%d: delete %s" % (s.lineno, ast.unparse(s)[:60].split("\n")[0]), f)
            for k in range(len(n.body) - 1):
                def f(m, k=k):
                    m.body[k], m.body[k + 1] = m.body[k + 1], m.body[k]
                if False:
                    add(i, "%d: swap statements" % n.body[k].lineno, f)
    return out


class Inline(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "_ident_":
            return n.args[0]
        return n


def mutants(src, lineno, name):
    """yield (description, mutated module source) for the function `name` at `lineno`"""
    tree = ast.parse(src)
    fn = [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef) and x.name == name and x.lineno == lineno][0]
    for i, desc, f in sites(fn):
        t2 = copy.deepcopy(tree)
        fn2 = [x for x in ast.walk(t2) if isinstance(x, ast.FunctionDef) and x.name == name and x.lineno == lineno][0]
        f(list(ast.walk(fn2))[i])
        t2 = ast.fix_missing_locations(Inline().visit(t2))
        try:
            yield desc, ast.unparse(t2)
        except Exception:
            continue
