"""Lowering of Python functions to a gated-SSA value graph.

One flow-sensitive pass per function: branches are evaluated once each and merged with gated
phi terms, loops are brought to a fixpoint over the set of modified slots and represented by
header terms (mu), calls to package functions are inlined (so helpers are transparent), mutable
objects live in a store of cells so aliases, views and in-place updates are tracked.  Nothing of
the analysed program is executed and no path is enumerated."""
import ast
import copy
import sys
from collections import namedtuple

from .terms import *
from .terms import mk, const, NONE, TRUE, FALSE
from .project import FuncInfo, ClassInfo, AnalysisBroken

ZIPPED = set()  # pairs of lengths of sequences that are walked through together

sys.setrecursionlimit(20000)

Arr = namedtuple("Arr", "t kind origin label")
View = namedtuple("View", "parent how idx maybe t")  # how: idx, tr, same, diag, flat, other
Phi = namedtuple("Phi", "c a b")
Lst = namedtuple("Lst", "base items")
Alt = namedtuple("Alt", "c a b")  # conditional content of a list cell
Dct = namedtuple("Dct", "base entries")  # entries: tuple of (key T, val T)
Obj = namedtuple("Obj", "cls fields record origin")  # fields: dict (treated immutable)

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%",
          ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
          ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

# external callables returning (possibly) the very object they were given
MAYBE_ALIAS = {
    "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.atleast_1d", "numpy.atleast_2d",
    "numpy.atleast_3d", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "sklearn.utils.check_array",
    "sklearn.utils.validation.check_array", "numpy.require", "numpy.real", "numpy.asfarray",
    "sklearn.utils.validation.as_float_array", "sklearn.utils.as_float_array", "sklearn.utils.validation.column_or_1d",
    "sklearn.utils.column_or_1d",
}
VIEW_FUNCS = {"numpy.transpose", "numpy.swapaxes", "numpy.expand_dims", "numpy.moveaxis", "numpy.rollaxis",
              "numpy.broadcast_to", "numpy.diagonal"}
CHECK_XY = {"sklearn.utils.check_X_y", "sklearn.utils.validation.check_X_y"}
MUT_ARG0 = {"numpy.fill_diagonal", "numpy.put", "numpy.copyto", "numpy.place", "numpy.putmask",
            "numpy.random.shuffle", "numpy.put_along_axis", "random.shuffle", "heapq.heapify"}
NUM_FUNCS = {"builtins.len", "builtins.int", "builtins.float", "builtins.abs", "builtins.max", "builtins.min",
             "builtins.round", "numpy.float64", "numpy.float32", "numpy.linalg.norm", "numpy.isscalar",
             "sklearn.utils.extmath.squared_norm", "sklearn.utils.extmath.fast_logdet",
             "regain.update_rules.update_rho", "regain.update_rules.update_gamma", "builtins.bool", "builtins.str",
             "builtins.isinstance", "builtins.callable", "builtins.hasattr"}
ARR_FUNCS_PREFIX = ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.eye", "numpy.identity",
                    "numpy.array", "numpy.arange", "numpy.linspace", "numpy.concatenate", "numpy.stack",
                    "numpy.hstack", "numpy.vstack", "numpy.copy", "numpy.diag", "numpy.tril", "numpy.triu",
                    "numpy.nan_to_num", "numpy.matmul", "numpy.random.", "numpy.around")
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "setdefault", "add",
            "discard", "popitem"}
ARR_MUT = {"sort", "fill", "resize", "put", "itemset", "partition", "setflags", "byteswap"}


def attribute_of(v):
    """the attribute of an argument or of a hyper-parameter that a value is (an alias of), if any"""
    while v.op == "call" and v.args[0].op == "glob" and v.args[0].args[1] in MAYBE_ALIAS and v.args[1] and not any(k == "copy" for k, _ in v.args[2]):
        v = v.args[1][0]
    t = v
    while t.op == "attr" or t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("fit", "set_params", "partial_fit"):
        t = t.args[0]
    return mk("attr", t, v.args[1]) if v.op == "attr" and v.args[1] not in ("shape", "size", "ndim", "dtype") and t.op in ("param", "self0") else None


MODULE_FRAME = ast.parse("lambda: None", mode="eval").body


def exc_is(t, name):
    if t.op == "call":
        t = t.args[0]
    return t.op == "glob" and t.args[1].split(".")[-1] == name


def key_label(k):
    """a name for a dictionary entry that does not depend on how the dictionary was computed"""
    return show(k)[:40] if k.op in ("const", "param", "ix", "mu", "self0") else "key"


class Frame:
    def __init__(self, fid, func, self_cls, outer):
        self.fid, self.func, self.self_cls, self.outer = fid, func, self_cls, outer
        self.returns = []
        self.loops = []
        self.globals = set()
        self.imports = {}


class State:
    __slots__ = ("envs", "heap", "pc", "draws")

    def __init__(self, envs, heap, pc, draws=None):
        self.envs, self.heap, self.pc = envs, heap, pc
        self.draws = draws or {}  # how often each random draw has been made on this path

    def copy(self):
        return State({k: dict(v) for k, v in self.envs.items()}, dict(self.heap), self.pc, dict(self.draws))


class Loop:
    def __init__(self, uid, func, node):
        self.uid, self.func, self.node = uid, func, node
        self.ix = None
        self.iter = None
        self.breaks, self.continues = [], []
        self.init, self.next, self.kind = {}, {}, {}
        self.cond = None  # while condition at header
        self.final_pc = TRUE
        self.parent = None
        self.else_events = []

    @property
    def line(self):
        return self.node.lineno


class Limit(Exception):
    pass


RANDOM = {"rand", "randn", "randint", "random", "random_sample", "choice", "permutation", "uniform", "normal", "standard_normal", "poisson", "binomial",
          "multivariate_normal", "gamma", "exponential", "laplace", "beta", "dirichlet", "rvs", "standard_t", "standard_gamma", "chisquare", "bernoulli"}


def draws_random(p, fi):
    """may the function (or a library function it calls by name) draw random numbers?"""
    tab = getattr(p, "_random_names", None)
    if tab is None:
        names, uses = set(), {}
        for f in p.all_functions():
            if f.mod.external or not f.mod.name.startswith(("regain.datasets", "regain.bayesian", "regain.clustering", "regain.data")):
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call):
                    c = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                    if c in RANDOM and isinstance(x.func, ast.Attribute):
                        names.add(f.name)
                    uses.setdefault(f.name, set()).add(c)
        todo = True
        while todo:
            new = {n for n, u in uses.items() if u & names} - names
            names |= new
            todo = bool(new)
        tab = p._random_names = names
    return fi.name in tab and fi.mod.name.startswith(("regain.datasets", "regain.bayesian", "regain.clustering", "regain.data"))


def expand_index(rest, kw):
    """np.expand_dims(x, axis) as an index"""
    ax = rest[0] if rest else kw.get("axis")
    a = num(ax) if ax is not None else None
    if not isinstance(a, int) or not -4 < a < 4:
        return None
    full = mk("slice", NONE, NONE, NONE)
    if a >= 0:
        return mk("tuple", (full,) * a + (NONE,))
    return mk("tuple", (mk("ellipsis"), NONE) + (full,) * (-a - 1))


OPERATORS = {"operator." + k: v for k, v in dict(add="+", sub="-", mul="*", truediv="/", matmul="@", pow="**", floordiv="//", mod="%").items()}


def joined(a, b):
    """concatenation of lists of which the second is written out on every branch"""
    if isinstance(a, Alt):
        x, y = joined(a.a, b), joined(a.b, b)
        return None if x is None or y is None else Alt(a.c, x, y)
    if isinstance(b, Alt):
        x, y = joined(a, b.a), joined(a, b.b)
        return None if x is None or y is None else Alt(b.c, x, y)
    if isinstance(a, Lst) and isinstance(b, Lst) and b.base is None:
        return Lst(a.base, a.items + b.items)
    return None


class Interp:
    def __init__(self, project, atoms=(), inline_ext_methods=("__init__", "get_precision"), max_depth=12, max_calls=4000,
                 fold=True, uid0=0):
        self.p = project
        self.atoms = atoms if callable(atoms) else (lambda q, s=set(atoms): q in s)
        self.inline_ext = set(inline_ext_methods)
        self.max_depth, self.max_calls = max_depth, max_calls
        self.events = []
        self.rec = 0
        self.loops = []
        self.noid = 0
        self.nfid = 0
        self.nuid = uid0
        self.stack = []
        self.frames = {}
        self.funcs = {}
        self.calls = 0
        self.active_ix = []
        self.shape0 = {}
        self.lazy = set()
        self.ctxlabels = []
        self.lamdepth = 0
        self.tries = {}
        self.tables = {}
        self.approx = []  # where precision was lost

    # ------------------------------------------------------------------ utilities
    def new(self, st, cell):
        self.noid += 1
        st.heap[self.noid] = cell
        return mk("ref", self.noid)

    def uid(self):
        self.nuid += 1
        return self.nuid

    def tryno(self, h):
        """ordinal of an exception handler, by order of first evaluation"""
        k = id(h)
        if k not in self.tries:
            self.tries[k] = (len(self.tries), h)
        return self.tries[k][0]

    def opaque(self, why, *deps):
        return mk("opaque", why, 0, tuple(deps))

    def event(self, kind, node, **kw):
        if self.rec:
            return
        f = self.stack[-1] if self.stack else None
        kw.update(kind=kind, node=node, line=getattr(node, "lineno", 0), func=f.func.qual if f else "?",
                  path=f.func.path if f else "?", depth=len(self.stack),
                  chain=tuple(x.func.qual for x in self.stack), loops=tuple(l.uid for l in self.loop_stack()),
                  ctx=tuple(self.ctxlabels))
        self.events.append(kw)

    def loop_stack(self):
        return [l for f in self.stack for l in f.loops]

    # ------------------------------------------------------------------ reading
    def rd(self, v, st, seen=()):
        if v.op == "ref":
            oid = v.args[0]
            if oid in seen:
                return mk("cyc", oid)
            c = st.heap.get(oid)
            if c is None:
                return self.opaque("dangling")
            s2 = seen + (oid,)
            if isinstance(c, Arr):
                return c.t
            if isinstance(c, View):
                if c.t is not None:
                    if c.how == "other" and c.idx is not None:
                        # what it was made from may have been written since
                        p = self.rd(mk("ref", c.parent), st, s2)
                        if p is not c.idx:
                            t = subst(c.t, {c.idx.n: p})
                            return t if t is not c.t else mk("view", "other", p, c.t)
                    return c.t
                p = self.rd(mk("ref", c.parent), st, s2)
                return self.view_term(p, c)
            if isinstance(c, Phi):
                return ite(c.c, self.rd(c.a, st, s2), self.rd(c.b, st, s2))
            if isinstance(c, (Lst, Alt)):
                return self.lst_term(c, st, s2)
            if isinstance(c, Dct):
                es = [(self.rd(k, st, s2), self.rd(x, st, s2)) for k, x in c.entries]
                n = next((i for i, (k, _) in enumerate(es) if k.op != "const" or not isinstance(k.args[0], str)), len(es))
                if len({k.args[0] for k, _ in es[:n]}) == n:
                    # the order in which names are listed is immaterial
                    es[:n] = sorted(es[:n], key=lambda e: e[0].args[0])
                return mk("dict", c.base if c.base is not None else NONE, tuple(es))
            if isinstance(c, Obj):
                if c.record:
                    return mk("rec", c.cls.qual, tuple((k, self.rd(x, st, s2)) for k, x in c.fields.items()))
                if c.origin is not None and c.origin.op == "selfobj":
                    return c.origin
                return mk("obj", c.cls.qual if c.cls else "?", tuple((k, self.rd(x, st, s2)) for k, x in sorted(c.fields.items())))
            return self.opaque("cell")
        if v.op in ("tuple", "bm", "partial", "lam", "zipit", "enumit", "mapit"):
            return rebuild(v, lambda x: self.rd(x, st, seen))
        return v

    def lst_term(self, c, st, seen):
        if isinstance(c, Alt):
            return ite(c.c, self.lst_term(c.a, st, seen), self.lst_term(c.b, st, seen))
        return mk("list", c.base if c.base is not None else NONE, tuple(self.rd(x, st, seen) for x in c.items))

    def view_term(self, p, c):
        if c.how in ("idx", "elem"):
            return self.mk_idx(p, c.idx)
        if c.how == "belem":
            if p.op == "ite":
                return ite(p.args[0], self.view_term(p.args[1], c), self.view_term(p.args[2], c))
            return self.mk_idx(mk("list", p.args[0], ()) if p.op == "list" and not is_const(p.args[0], None) else p, c.idx)
        if c.how == "tr":
            return mk("tr", p)
        if c.how == "same":
            return p
        if c.how == "diag":
            return mk("diag", p)
        return mk("view", c.how, p, c.idx if c.idx is not None else NONE)

    def within(self, v, oid, st, n=0):
        """v is an element of (or a view into) the object oid"""
        c = st.heap.get(v.args[0]) if v.op == "ref" else None
        if v.op == "ref" and v.args[0] == oid and n:
            return True
        if isinstance(c, View):
            return self.within(mk("ref", c.parent), oid, st, n + 1)
        if isinstance(c, Phi):
            return self.within(c.a, oid, st, n + 1) or self.within(c.b, oid, st, n + 1)
        return False

    def roots(self, v, st, seen=None):
        """Origins of the object(s) a value may be (an alias of / a view into)."""
        seen = set() if seen is None else seen
        if v.op != "ref" or v.args[0] in seen:
            return set()
        seen.add(v.args[0])
        c = st.heap.get(v.args[0])
        if isinstance(c, Arr):
            return {c.origin} if c.origin else set()
        if isinstance(c, View):
            return self.roots(mk("ref", c.parent), st, seen)
        if isinstance(c, Phi):
            return self.roots(c.a, st, seen) | self.roots(c.b, st, seen)
        if isinstance(c, Obj) and c.origin:
            return {c.origin}
        if isinstance(c, (Lst, Dct)) and c.base is not None and c.base.op in ("param", "self0"):
            return {c.base}
        return set()

    def kindof(self, v, st=None):
        if v.op == "ref" and st is not None:
            c = st.heap.get(v.args[0])
            if isinstance(c, Arr):
                return c.kind or self.kindof(c.t)
            if isinstance(c, View):
                if c.how in ("elem", "belem"):
                    return self.kindof(self.rd(v, st))
                return "arr" if c.how != "same" else self.kindof(mk("ref", c.parent), st)
            if isinstance(c, (Lst, Alt)):
                return "list"
            if isinstance(c, Dct):
                return "dict"
            if isinstance(c, Obj):
                return "obj"
            if isinstance(c, Phi):
                a, b = self.kindof(c.a, st), self.kindof(c.b, st)
                return a if a == b else "unk"
            return "unk"
        o = v.op
        if o == "const":
            return "num" if not isinstance(v.args[0], (tuple, list)) else "obj"
        if o in ("cmp", "not", "len", "ix", "and", "or", "fstr", "size"):
            return "num"
        if o in ("fn", "glob", "clo", "lam", "bm", "partial", "tuple", "slice", "range", "obj", "rec", "zipit", "enumit", "mapit", "type"):
            return "obj"
        if o == "bin":
            a, b = self.kindof(v.args[1]), self.kindof(v.args[2])
            if "arr" in (a, b):
                return "arr"
            return "num" if a == b == "num" else "unk"
        if o == "un":
            return self.kindof(v.args[1])
        if o == "ite":
            a, b = self.kindof(v.args[1]), self.kindof(v.args[2])
            if is_const(v.args[1], None):
                return b
            if is_const(v.args[2], None):
                return a
            return a if a == b else "unk"
        if o in ("tr", "upd", "map", "diag", "view", "rsumarr"):
            return "arr"
        if o == "rsum":
            return self.kindof(v.args[1])
        if o == "param":
            return v.args[0] or "unk"
        if o == "mu":
            return v.args[2]
        if o == "idx":
            i = v.args[1]
            if v.args[0].op == "attr" and v.args[0].args[1] == "shape":
                return "num"
            if i.op == "slice" or (i.op == "tuple" and any(x.op == "slice" or is_const(x, None) for x in i.args[0])):
                return "arr"
            return "unk"
        if o == "attr":
            if v.args[1] in ("size", "ndim"):
                return "num"
            if v.args[1] in ("T", "flat", "data", "real"):
                return "arr"
            return "unk"
        if o == "call":
            f = v.args[0]
            if f.op == "glob":
                q = f.args[1]
                if q in NUM_FUNCS:
                    if q == "numpy.linalg.norm" and any(k in ("axis", "keepdims") for k, _ in v.args[2]):
                        return "arr"
                    if q in ("builtins.abs", "builtins.max", "builtins.min") and v.args[1]:
                        return "num" if all(self.kindof(x) == "num" for x in v.args[1]) else "unk"
                    return "num"
                if q.startswith(ARR_FUNCS_PREFIX):
                    return "arr"
                if q in ("numpy.sqrt", "numpy.square", "numpy.exp", "numpy.log", "numpy.abs", "numpy.maximum",
                         "numpy.minimum", "numpy.sign"):
                    ks = [self.kindof(x) for x in v.args[1]]
                    return "arr" if "arr" in ks else ("num" if all(k == "num" for k in ks) else "unk")
                if q.startswith("regain.prox.prox_") or q.startswith("regain.prox.soft") or q.startswith("regain.prox.block"):
                    return "arr"
            return "unk"
        return "unk"

    # ------------------------------------------------------------------ terms
    def mk_idx(self, base, i):
        if base.op == "ite" and (base.args[1].op in ("tuple", "list", "map") or base.args[2].op in ("tuple", "list", "map")):
            return ite(base.args[0], self.mk_idx(base.args[1], i), self.mk_idx(base.args[2], i))
        n = num(i)
        if base.op == "tuple" and isinstance(n, int):
            xs = base.args[0]
            if -len(xs) <= n < len(xs):
                return xs[n]
            return mk("badidx", base, i)
        if base.op == "list" and isinstance(n, int):
            b, xs = base.args
            if is_const(b, None):
                if -len(xs) <= n < len(xs):
                    return xs[n]
                return mk("badidx", base, i)
            if n < 0 and -n <= len(xs):
                return xs[n]
            if n < 0 and xs:
                return mk("idx", mk("list", b, ()), const(n + len(xs)))
        if base.op == "tuple" and i.op == "slice":
            r = self.slice_seq(base.args[0], i)
            if r is not None:
                return mk("tuple", r)
        if base.op == "list" and i.op == "slice" and is_const(base.args[0], None):
            r = self.slice_seq(base.args[1], i)
            if r is not None:
                return mk("list", NONE, r)
        if base.op == "dict" and is_const(base.args[0], None):
            for k, x in base.args[1]:
                if k is i:
                    return x
        if base.op == "map" and base.args[0] is i:
            return base.args[1]
        if base.op == "attr" and base.args[1] == "shape" and n == 0:
            return mk("len", base.args[0])
        if base.op == "upd" and base.args[1] is i:
            return base.args[2]
        return mk("idx", base, i)

    def slice_seq(self, xs, sl):
        vals = []
        for a in sl.args:
            if is_const(a, None):
                vals.append(None)
            elif isinstance(num(a), int):
                vals.append(num(a))
            else:
                return None
        return tuple(xs[slice(*vals)])

    def binop(self, op, a, b):
        x, y = num(a), num(b)
        if x is not None and y is not None:
            try:
                if op == "+":
                    return const(x + y)
                if op == "-":
                    return const(x - y)
                if op == "*":
                    return const(x * y)
            except Exception:
                pass
        if op == "+" and a.op == "list" and b.op == "list" and is_const(b.args[0], None):
            return mk("list", a.args[0], a.args[1] + b.args[1])
        if op == "+" and a.op == "tuple" and b.op == "tuple":
            return mk("tuple", a.args[0] + b.args[0])
        return mk("bin", op, a, b)

    # ------------------------------------------------------------------ binding / stores
    def boxed(self, v, st, label=None):
        """Give a fresh mutable value its own cell."""
        if v.op in ("ref", "const", "glob", "fn", "clo", "lam", "bm", "partial", "ix", "len", "cmp", "slice", "range", "super", "extmethod",
                    "type", "zipit", "enumit", "mapit", "undef"):
            return v
        if v.op == "tuple":
            return mk("tuple", tuple(self.boxed(x, st, "%s[%d]" % (label, i)) for i, x in enumerate(v.args[0])))
        if v.op == "list":
            return self.new(st, Lst(None if is_const(v.args[0], None) else v.args[0],
                                    tuple(self.boxed(x, st) for x in v.args[1])))
        if v.op == "dict":
            return self.new(st, Dct(None if is_const(v.args[0], None) else v.args[0],
                                    tuple((k, self.boxed(x, st)) for k, x in v.args[1])))
        if v.op == "ite" and (v.args[1].op in ("list", "tuple") or v.args[2].op in ("list", "tuple")):
            return v
        k = self.kindof(v)
        if k == "num":
            return v
        return self.new(st, Arr(v, k, attribute_of(v), label))

    def lookup_env(self, st, fr, name):
        f = fr
        while f is not None:
            env = st.envs.get(f.fid)
            if env is not None and name in env:
                return env[name], f
            f = f.outer
        return None, None

    def bind(self, st, name, v):
        fr = self.stack[-1]
        if name in fr.globals:
            self.event("global_store", self.cur, name=name)
        st.envs[fr.fid][name] = self.boxed(v, st, name)

    def write_cell(self, v, t, st, node, mode="store", idx=None):
        """In-place change of the object v refers to: its whole value becomes t (idx None) or
        v[idx] becomes t."""
        if v.op != "ref":
            if v.op == "glob" or (v.op == "attr" and any(x.op == "glob" and x.args[0] in ("data", "class", "func") for x in walk(v))):
                self.event("globmut", node, target=v, mode=mode, pc=st.pc)
            return
        oid = v.args[0]
        c = st.heap.get(oid)
        rts = self.roots(v, st)
        self.event("store", node, roots=rts, mode=mode, target=v, pc=st.pc, idx=idx, value=t)
        self._write(oid, t, idx, st)

    def _write(self, oid, t, idx, st):
        c = st.heap.get(oid)
        if isinstance(c, Arr):
            st.heap[oid] = c._replace(t=t if idx is None else self.mk_upd(c.t, idx, t), kind=c.kind if c.kind != "unk" else c.kind)
        elif isinstance(c, View):
            p = mk("ref", c.parent)
            if c.t is not None and c.how == "same" and c.maybe:
                # may or may not be the same object: both keep a consistent abstract value
                nt = t if idx is None else self.mk_upd(c.t, idx, t)
                st.heap[oid] = c._replace(t=nt)
                return
            cur = self.rd(mk("ref", oid), st)
            nv = t if idx is None else self.mk_upd(cur, idx, t)
            if c.how in ("idx", "elem"):
                self._write(c.parent, nv, c.idx, st)
            elif c.how == "belem":
                q = st.heap.get(c.parent)
                if isinstance(q, Lst) and q.base is not None:
                    st.heap[c.parent] = Lst(self.mk_upd(q.base, c.idx, nv), q.items)
                else:
                    self._write(c.parent, nv, c.idx, st)
            elif c.how == "tr":
                self._write(c.parent, mk("tr", nv), None, st)
            elif c.how == "same":
                self._write(c.parent, nv, None, st)
            elif c.how == "diag":
                self._write(c.parent, nv, mk("diagix"), st)
            elif c.how == "other":
                self._write(c.parent, nv, mk("viewix", c.how, NONE), st)
                st.heap[oid] = c._replace(t=nv, idx=self.rd(p, st) if c.idx is not None else None)
            else:
                self._write(c.parent, nv, mk("viewix", c.how, c.idx if c.idx is not None else NONE), st)
        elif isinstance(c, Phi):
            cur = self.rd(mk("ref", oid), st)
            nv = t if idx is None else self.mk_upd(cur, idx, t)
            k = self.kindof(mk("ref", oid), st)
            for br, cond in ((c.a, c.c), (c.b, neg(c.c))):
                if br.op == "ref":
                    old = self.rd(br, st)
                    if isinstance(st.heap.get(br.args[0]), (Arr, View, Phi)):
                        self._write(br.args[0], ite(cond, nv, old), None, st)
            if all(b.op == "ref" for b in (c.a, c.b)):
                return
            st.heap[oid] = Arr(nv, k, None, None)
        elif isinstance(c, (Lst, Alt)):
            if idx is not None:
                st.heap[oid] = self.lst_set(c, idx, self.boxed(t, st), st)
            else:
                st.heap[oid] = Lst(t, ())
        elif isinstance(c, Dct):
            if idx is not None:
                st.heap[oid] = self.dct_set(c, idx, self.boxed(t, st))
            else:
                st.heap[oid] = Dct(t, ())
        elif isinstance(c, Obj):
            pass

    def mk_upd(self, base, idx, val):
        if base.op == "upd" and base.args[1] is idx:
            base = base.args[0]
        return mk("upd", base, idx, val)

    def lst_set(self, c, idx, val, st):
        if isinstance(c, Alt):
            return Alt(c.c, self.lst_set(c.a, idx, val, st), self.lst_set(c.b, idx, val, st))
        n = num(idx)
        if isinstance(n, int):
            xs = list(c.items)
            if c.base is None and -len(xs) <= n < len(xs) or n < 0 and -n <= len(xs):
                xs[n] = val
                return Lst(c.base, tuple(xs))
        return Lst(self.mk_upd(self.lst_term(c, st, ()), idx, self.rd(val, st)), ())

    def dct_set(self, c, key, val):
        es = [(k, x) for k, x in c.entries if k is not key]
        return Dct(c.base, tuple(es + [(key, val)]))

    # ------------------------------------------------------------------ merging
    def draw(self, t, st):
        """a random draw: every evaluation is a new value, per iteration of the enclosing loops"""
        ixs = tuple(self.active_ix)
        key = (t.n, tuple(x.n for x in ixs))
        k = st.draws.get(key, 0)
        st.draws[key] = k + 1
        return t if not k and not ixs else mk("draw", t, k, ixs)

    def merge(self, c, s1, s2):
        """c ? s1 : s2"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        if c.op == "const":
            return s1 if c.args[0] else s2
        heap = {}
        for oid in s1.heap.keys() | s2.heap.keys():
            a, b = s1.heap.get(oid), s2.heap.get(oid)
            if a is None:
                heap[oid] = b
            elif b is None or a == b:
                heap[oid] = a
            else:
                heap[oid] = self.merge_cell(c, a, b, s1, s2, heap)
        out = State({}, heap, s1.pc, {k: max(s1.draws.get(k, 0), s2.draws.get(k, 0)) for k in s1.draws.keys() | s2.draws.keys()})
        for fid in s1.envs.keys() | s2.envs.keys():
            e1, e2 = s1.envs.get(fid, {}), s2.envs.get(fid, {})
            env = {}
            for nme in list(e1) + [k for k in e2 if k not in e1]:
                a, b = e1.get(nme), e2.get(nme)
                if a is None or b is None:
                    env[nme] = self.merge_val(c, a if a is not None else mk("undef"), b if b is not None else mk("undef"), out, s1, s2)
                else:
                    env[nme] = self.merge_val(c, a, b, out, s1, s2)
            out.envs[fid] = env
        return out

    def merge_val(self, c, a, b, out, s1, s2):
        if a is b:
            return a
        if a.op == "tuple" and b.op == "tuple" and len(a.args[0]) == len(b.args[0]):
            return mk("tuple", tuple(self.merge_val(c, x, y, out, s1, s2) for x, y in zip(a.args[0], b.args[0])))
        if a.op == "ref" or b.op == "ref":
            ca = s1.heap.get(a.args[0]) if a.op == "ref" else None
            cb = s2.heap.get(b.args[0]) if b.op == "ref" else None
            if isinstance(ca, (Lst, Alt)) and isinstance(cb, (Lst, Alt)):
                return self.new(out, Alt(c, ca, cb))
            if isinstance(ca, Arr) and isinstance(cb, Arr) and not ca.origin and not cb.origin and ca.t is cb.t:
                return a if a.args[0] in out.heap else b
            return self.new(out, Phi(c, a, b))
        return ite(c, a, b)

    def merge_cell(self, c, a, b, s1, s2, heap):
        if isinstance(a, Arr) and isinstance(b, Arr):
            return Arr(ite(c, a.t, b.t), a.kind if a.kind == b.kind else "unk", a.origin or b.origin, a.label)
        if isinstance(a, (Lst, Alt)) and isinstance(b, (Lst, Alt)):
            return Alt(c, a, b)
        if isinstance(a, Dct) and isinstance(b, Dct):
            ks = [k for k, _ in a.entries] + [k for k, _ in b.entries if k not in dict(a.entries)]
            da, db = dict(a.entries), dict(b.entries)
            tmp = State({}, heap, TRUE)
            ents = tuple((k, self.merge_val(c, da.get(k, mk("undef")), db.get(k, mk("undef")), tmp, s1, s2)) for k in ks)
            base = a.base if a.base is b.base else ite(c, a.base or NONE, b.base or NONE)
            return Dct(base, ents)
        if isinstance(a, Obj) and isinstance(b, Obj):
            tmp = State({}, heap, TRUE)
            fs = {}
            for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
                x, y = a.fields.get(k), b.fields.get(k)
                d = mk("self0", k) if a.origin else mk("undef")
                fs[k] = self.merge_val(c, x if x is not None else d, y if y is not None else d, tmp, s1, s2)
            return Obj(a.cls, fs, a.record, a.origin)
        if isinstance(a, View) and isinstance(b, View):
            ta = self.rd_cell(a, s1)
            tb = self.rd_cell(b, s2)
            return a._replace(t=ite(c, ta, tb)) if ta is not tb else a
        return Arr(ite(c, self.rd_cell(a, s1), self.rd_cell(b, s2)), "unk", None, None)

    def rd_cell(self, c, st):
        self.noid += 1
        st2 = State(st.envs, dict(st.heap), st.pc)
        st2.heap[self.noid] = c
        return self.rd(mk("ref", self.noid), st2)

    # ------------------------------------------------------------------ entry points
    def new_frame(self, func, self_cls=None, outer=None):
        self.nfid += 1
        fr = Frame(self.nfid, func, self_cls, outer)
        self.frames[self.nfid] = fr
        return fr

    def run_function(self, func, args=None, self_cls=None, self_fields=None, param_kinds=None):
        """Lower a function with symbolic parameters.  Returns Result."""
        st = State({}, {}, TRUE)
        fr = self.new_frame(func, self_cls)
        env = st.envs[fr.fid] = {}
        pos = list(func.pos)
        args = dict(args or {})
        selfref = None
        self.param_refs = {}
        if func.is_method and pos:
            sname = pos.pop(0)
            if "classmethod" not in func.decorators:
                selfref = self.new(st, Obj(self_cls or func.cls, dict(self_fields or {}), False, mk("selfobj")))
                env[sname] = selfref
        for n in pos + func.kwonly:
            if n in args:
                env[n] = self.boxed(args[n], st, n)
                continue
            kind = (param_kinds or {}).get(n) or self.default_kind(func, n)
            t = mk("param", kind, n)
            env[n] = t if kind == "num" else self.new(st, Arr(t, kind, t, n))
            self.param_refs[n] = (env[n], t)
        if func.vararg:
            env[func.vararg] = mk("param", "unk", "*" + func.vararg)
        if func.kwarg:
            env[func.kwarg] = self.new(st, Dct(mk("param", "unk", "**" + func.kwarg), ()))
        self.cur = func.node
        val, out = self.exec_func(fr, st)
        return Result(self, func, val, out, selfref, fr)

    def default_kind(self, func, n):
        d = func.defaults.get(n)
        if isinstance(d, ast.Constant) and isinstance(d.value, (int, float, bool, str)) and d.value is not None:
            return "num"
        if isinstance(d, ast.UnaryOp):
            return "num"
        return "unk"

    def exec_func(self, fr, st):
        self.stack.append(fr)
        pc0 = st.pc
        try:
            node = fr.func.node
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body, st)
                return v, st
            s = self.block(node.body, st)
            rets = fr.returns
            if s is not None:
                rets = rets + [(s.pc, NONE, s, None)]
            if not rets:
                return mk("bottom"), None
            self.last_returns = rets
            # fold from last to first
            pc, val, acc, _ = rets[-1]
            for pc_i, v_i, s_i, _ in reversed(rets[:-1]):
                pc_i = self.strip(pc_i, pc0)
                acc2 = self.merge(pc_i, s_i, acc)
                val = self.merge_val(pc_i, v_i, val, acc2, s_i, acc)
                acc = acc2
            return val, acc
        finally:
            self.stack.pop()

    # ------------------------------------------------------------------ statements
    def block(self, body, st):
        for stmt in body:
            if st is None:
                return None
            st = self.stmt(stmt, st)
        return st

    def stmt(self, n, st):
        self.cur = n
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.approx.append((self.stack[-1].func.qual, n.lineno, type(n).__name__))
            return self.given_up(n, st)
        return m(n, st)

    def given_up(self, n, st):
        """a statement of a kind that is not interpreted: nothing is known of what it may have written or returned"""
        env = st.envs[self.stack[-1].fid]
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Store):
                    env[x.id] = self.opaque("stmt")
            elif isinstance(x, ast.MatchAs) and x.name or isinstance(x, ast.MatchStar) and x.name:
                env[x.name] = self.opaque("stmt")
            elif isinstance(x, ast.Return):
                fr = self.stack[-1]
                fr.returns.append((conj(st.pc, self.opaque("stmt")), self.opaque("stmt"), st, x))
        return st

    def s_Pass(self, n, st):
        return st

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return st
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            if n.value.value is not None:
                self.ev(n.value.value, st)
            self.event("yield", n, pc=st.pc)
            return st
        k = len(self.events)
        self.ev(n.value, st)
        for e in self.events[k:]:
            if e["kind"] in ("ext", "method") and e.get("node") is n.value:
                e["stmt"] = True
        return st

    def s_Import(self, n, st):
        self.stack[-1].func.mod.add_import(n, self.stack[-1].imports)
        return st

    s_ImportFrom = s_Import

    def s_Global(self, n, st):
        self.stack[-1].globals.update(n.names)
        return st

    def s_Nonlocal(self, n, st):
        return st

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.envs[self.stack[-1].fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                self.write_cell(b, self.opaque("del", self.rd(b, st)), st, n, mode="del")
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.event("delattr", n, field=t.attr, obj=b, pc=st.pc)
        return st

    def s_FunctionDef(self, n, st):
        fr = self.stack[-1]
        f = FuncInfo(fr.func.mod, n, parent=fr.func)
        u = self.uid()
        self.funcs[u] = (f, fr)
        st.envs[fr.fid][n.name] = mk("clo", u, f.qual)
        return st

    def s_ClassDef(self, n, st):
        st.envs[self.stack[-1].fid][n.name] = self.opaque("class")
        return st

    def s_Return(self, n, st):
        v = NONE if n.value is None else self.ev(n.value, st)
        self.event("return", n, pc=st.pc, value=v)
        fr = self.stack[-1]
        pc = st.pc
        for l in fr.loops:
            pc = conj(pc, mk("exited", l.uid, "r%d" % n.lineno))
        fr.returns.append((pc, v, st, n))
        return None

    def s_Raise(self, n, st):
        e = self.ev(n.exc, st) if n.exc is not None else NONE
        self.event("raise", n, pc=st.pc, exc=self.rd(e, st))
        return None

    def s_Assert(self, n, st):
        c = self.truth(self.ev(n.test, st), st)
        self.event("assert", n, cond=c, pc=st.pc)
        return st

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st, n)
        return st

    def s_Assign(self, n, st):
        v = self.ev(n.value, st)
        if len(n.targets) > 1 or isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            v = self.boxed(v, st, getattr(n.targets[0], "attr", None))
        for t in n.targets:
            self.assign(t, v, st, n)
        return st

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.bind(st, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.setattr(b, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            i = self.rd(self.ev_index(t.slice, st), st)
            if isinstance(t.value, ast.Attribute) and t.value.attr in ("loc", "iloc", "at", "iat", "values") and b.op != "ref":
                b = self.ev(t.value.value, st)
                i = mk("tuple", (const(t.value.attr), i))
            c = st.heap.get(b.args[0]) if b.op == "ref" else None
            if isinstance(c, (Lst, Alt, Dct)):
                self.write_cell(b, v, st, node, mode="setitem", idx=i)
            else:
                self.write_cell(b, self.rd(v, st), st, node, mode="setitem", idx=i)

    def unpack(self, elts, v, st, node):
        rv = v
        if v.op == "ref":
            c = st.heap.get(v.args[0])
            if isinstance(c, Lst) and c.base is None:
                rv = mk("tuple", c.items)
            elif isinstance(c, Phi) and c.a.op == "tuple" and c.b.op == "tuple":
                rv = v
        nst = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        arity = self.arity(rv, st)
        self.event("unpack", node, n=len(elts), star=bool(nst), arity=arity, value=rv, pc=st.pc)
        if rv.op == "tuple" and not nst and len(rv.args[0]) == len(elts):
            for e, x in zip(elts, rv.args[0]):
                self.assign(e, x, st, node)
            return
        if rv.op == "map":  # generator unpacking of a comprehension
            dom = rv.args[0]
            for k, e in enumerate(elts):
                self.assign(e, subst(rv.args[1], {dom.n: const(k)}), st, node)
            return
        for k, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, self.opaque("star", self.rd(rv, st)), st, node)
            else:
                kk = k if not nst or k < nst[0] else k - len(elts)
                self.assign(e, self.getitem(rv, const(kk), st), st, node)

    def arity(self, v, st):
        """Set of possible lengths, or None when unknown: [(cond, n or None)]"""
        t = self.rd(v, st)
        out = []

        def go(x, c):
            if x.op == "ite":
                go(x.args[1], conj(c, x.args[0]))
                go(x.args[2], conj(c, neg(x.args[0])))
            elif x.op == "tuple":
                out.append((c, len(x.args[0])))
            elif x.op == "list" and is_const(x.args[0], None):
                out.append((c, len(x.args[1])))
            elif is_const(x, None):
                out.append((c, -1))
            else:
                out.append((c, None))
        go(t, TRUE)
        return out

    def setattr(self, b, name, v, st, node):
        if b.op != "ref":
            self.event("setattr", node, obj=b, field=name, value=v, pc=st.pc, roots=set())
            return
        c = st.heap.get(b.args[0])
        self.event("setattr", node, obj=b, field=name, value=v, rvalue=self.rd(v, st), pc=st.pc, roots=self.roots(b, st))
        if isinstance(c, Obj):
            f = dict(c.fields)
            f[name] = self.boxed(v, st, "self." + name)
            st.heap[b.args[0]] = c._replace(fields=f)
        elif isinstance(c, (Arr, View)):
            self._write(b.args[0], mk("upd", self.rd(b, st), const(name), self.rd(v, st)), None, st)

    def s_AugAssign(self, n, st):
        op = BINOPS[type(n.op)]
        if isinstance(n.target, ast.Name):
            cur = self.load_name(n.target, st)
            rhs = self.ev(n.value, st)
            k = self.kindof(cur, st)
            val = self.binop(op, self.rd(cur, st), self.rd(rhs, st))
            c = st.heap.get(cur.args[0]) if cur.op == "ref" else None
            if isinstance(c, (Lst, Alt)) and op == "+":
                r = self.rd(rhs, st)
                self.event("store", n, roots=self.roots(cur, st), mode="iadd", target=cur, pc=st.pc, idx=None, value=r)
                rc = st.heap.get(rhs.args[0]) if rhs.op == "ref" else None
                if isinstance(rc, Lst) and rc.base is None:
                    for x in rc.items:
                        self.lst_append(cur.args[0], x, st)
                elif joined(c, rc) is not None:
                    st.heap[cur.args[0]] = joined(c, rc)
                elif r.op == "tuple" or (r.op == "list" and is_const(r.args[0], None)):
                    for x in (r.args[0] if r.op == "tuple" else r.args[1]):
                        self.lst_append(cur.args[0], self.boxed(x, st), st)
                else:
                    st.heap[cur.args[0]] = Lst(val, ())
                return st
            if cur.op == "ref" and k in ("arr", "unk"):
                self.write_cell(cur, val, st, n, mode="aug" if k == "arr" else "aug?")
            else:
                self.bind(st, n.target.id, val)
        elif isinstance(n.target, ast.Attribute):
            b = self.ev(n.target.value, st)
            cur = self.getattr(b, n.target.attr, st, n)
            rhs = self.ev(n.value, st)
            val = self.binop(op, self.rd(cur, st), self.rd(rhs, st))
            if cur.op == "ref" and self.kindof(cur, st) == "arr":
                self.write_cell(cur, val, st, n, mode="aug")
            else:
                self.setattr(b, n.target.attr, val, st, n)
        elif isinstance(n.target, ast.Subscript):
            b = self.ev(n.target.value, st)
            i = self.rd(self.ev_index(n.target.slice, st), st)
            cur = self.getitem(b, i, st)
            rhs = self.rd(self.ev(n.value, st), st)
            val = self.binop(op, self.rd(cur, st), rhs)
            c = st.heap.get(b.args[0]) if b.op == "ref" else None
            if isinstance(c, (Dct, Lst, Alt)) and cur.op == "ref" and self.kindof(cur, st) == "arr":
                self.write_cell(cur, val, st, n, mode="aug")
            else:
                self.write_cell(b, val, st, n, mode="setitem", idx=i)
        return st

    def s_If(self, n, st):
        c = self.truth(self.ev(n.test, st), st)
        self.event("if", n, cond=c, pc=st.pc)
        if c.op == "const":
            return self.block(n.body if c.args[0] else n.orelse, st)
        if any(c is x for x in (st.pc.args[0] if st.pc.op == "and" else (st.pc,))):
            return self.block(n.body, st)
        pc = st.pc
        s1, s2 = st, st.copy()
        s1.pc, s2.pc = conj(pc, c), conj(pc, neg(c))
        r1 = self.block(n.body, s1) if not is_const(s1.pc, False) else None
        r2 = self.block(n.orelse, s2) if not is_const(s2.pc, False) else None
        if r1 is None or r2 is None:
            return r1 if r2 is None else r2
        # an exit inside a branch strengthens that branch's pc beyond the test itself
        d1, d2 = r1.pc, r2.pc
        plain = d1 is conj(pc, c) and d2 is conj(pc, neg(c))
        out = self.merge(c, r1, r2)
        out.pc = pc if plain else disj(d1, d2) if not (d1 is d2) else d1
        if not plain:
            out.pc = conj(pc, disj(self.strip(d1, pc), self.strip(d2, pc)))
        return out

    def strip(self, d, pc):
        """drop conjuncts of pc from d"""
        base = set(x.n for x in (pc.args[0] if pc.op == "and" else (pc,)))
        ds = d.args[0] if d.op == "and" else (d,)
        return conj(*[x for x in ds if x.n not in base])

    def s_With(self, n, st):
        labels = []
        for it in n.items:
            v = self.ev(it.context_expr, st)
            labels.append(show(self.rd(v, st))[:200])
            if it.optional_vars is not None:
                file = v.op == "call" and v.args[0].op == "glob" and v.args[0].args[1] in ("builtins.open", "io.open", "gzip.open", "bz2.open")
                self.assign(it.optional_vars, v if v.op == "ref" or file else self.opaque("with", self.rd(v, st)), st, n)
        self.ctxlabels.extend(labels)
        try:
            r = self.block(n.body, st)
        finally:
            for _ in labels:
                self.ctxlabels.pop()
        return r

    def s_Try(self, n, st):
        pre = st.copy()
        pc = st.pc
        ev0 = len(self.events)
        self.ctxlabels.append("try:%s" % ",".join(ast.unparse(h.type) if h.type else "*" for h in n.handlers))
        fr = self.stack[-1]
        nret = len(fr.returns)
        r = self.block(n.body, st)
        self.ctxlabels.pop()
        what = self.attempted(n, pre, r, fr.returns[nret:])
        simple = len(n.body) == 1 and isinstance(n.body[0], (ast.Assign, ast.Return)) and not n.orelse
        if r is not None and n.orelse:
            r = self.block(n.orelse, r)
        acc = r
        nbody = len(fr.returns) - nret
        for h in n.handlers:
            exc = mk("exc", self.tryno(h) if what is None else what, ast.unparse(h.type) if h.type else "*")
            if isinstance(h.type, ast.Name) and h.type.id == "KeyError" and len(n.handlers) == 1 and not self.rec:
                # the handler of a table lookup runs exactly for the keys that are not in the table
                ks = [e for e in self.events[ev0:] if e["kind"] == "raise" and exc_is(e["exc"], "KeyError") and isinstance(e["node"], ast.expr)]
                if ks:
                    exc = disj(*[self.strip(e["pc"], pc) for e in ks])
                    self.events[ev0:] = [e for e in self.events[ev0:] if not any(e is x for x in ks)]
                    if r is not None:
                        r.pc = pc
            hs = pre.copy() if r is None or exc.op != "exc" or simple else self.merge(mk("partial_exec", self.tryno(h)), pre.copy(), r.copy())
            hs.pc = conj(pc, exc)
            # a value is returned from the body only if nothing was raised before
            for k in range(nret, nret + nbody):
                fr.returns[k] = (conj(fr.returns[k][0], neg(exc)),) + fr.returns[k][1:]
            if h.name:
                hs.envs[self.stack[-1].fid][h.name] = self.opaque("exception")
            hr = self.block(h.body, hs)
            if hr is not None:
                acc = hr if acc is None else self.merge(exc, hr, acc)
                acc.pc = pc
        if acc is not None:
            acc.pc = pc if r is not None else acc.pc
        if n.finalbody:
            self.ctxlabels.append("finally")
            if acc is not None:
                acc = self.block(n.finalbody, acc)
            else:
                self.block(n.finalbody, pre)
            self.ctxlabels.pop()
        return acc

    def attempted(self, n, pre, r, rets):
        """the values computed in the body of a try statement: what raises is identified by them"""
        ts = set()
        for _, v, s, _ in rets:
            ts.add(self.rd(v, s))
        if r is not None:
            fid = self.stack[-1].fid
            for k, v in r.envs[fid].items():
                if pre.envs[fid].get(k) is not v:
                    ts.add(self.rd(v, r))
        ts = [t for t in ts if t.op in ("call", "idx", "bin", "mm", "upd", "attr") or any(x.op == "call" for x in walk(t))]
        return tuple(sorted(ts, key=lambda t: t.n)) if ts else None

    # ------------------------------------------------------------------ loops
    def s_Break(self, n, st):
        fr = self.stack[-1]
        l = fr.loops[-1]
        k = len(l.breaks)
        self.event("break", n, loop=l.uid, pc=st.pc)
        l.breaks.append((st.pc, st, n))
        return None

    def s_Continue(self, n, st):
        l = self.stack[-1].loops[-1]
        l.continues.append((st.pc, st, n))
        return None

    def s_For(self, n, st):
        itv = self.ev(n.iter, st)
        lit = self.literal_items(itv, st)
        if lit is not None and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(n)):
            for x in lit:
                if st is None:
                    return None
                self.assign(n.target, x, st, n)
                st = self.block(n.body, st)
            if st is not None and n.orelse:
                st = self.block(n.orelse, st)
            return st
        ix, elem = self.iter_elem(itv, st, n)
        return self.loop(n, st, ix, elem, n.target, None)

    def counted_while(self, n, st):
        """while i < hi: ... i += 1 ...   as the for loop over range(i, hi), or None"""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        if isinstance(t.ops[0], ast.Lt):
            v, hi = t.left, t.comparators[0]
        elif isinstance(t.ops[0], ast.Gt):
            v, hi = t.comparators[0], t.left
        else:
            return None
        if not isinstance(v, ast.Name):
            return None
        i = v.id
        stored = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for x in ast.walk(hi):
            if isinstance(x, ast.Name) and (x.id in stored or x.id == i):
                return None
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len"):
                return None
            if isinstance(x, ast.Attribute) and any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == x.attr
                                                    for b in n.body for y in ast.walk(b)):
                return None

        def inc(x):
            if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and x.target.id == i:
                return isinstance(x.value, ast.Constant) and x.value.value == 1
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == i:
                y = x.value
                return isinstance(y, ast.BinOp) and isinstance(y.op, ast.Add) and ast.dump(y.left) == ast.dump(ast.Name(i, ast.Load())) \
                    and isinstance(y.right, ast.Constant) and y.right.value == 1
            return False
        pos = [k for k, x in enumerate(n.body) if inc(x)]
        stores = [x for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Store)]
        if len(pos) != 1 or len(stores) != 1:
            return None
        def skips(x):
            if isinstance(x, ast.Continue):
                return True
            return not isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)) and any(skips(y) for y in ast.iter_child_nodes(x))
        if any(skips(b) for b in n.body[:pos[0]]):
            return None
        fn = self.stack[-1].func.node
        end = n.end_lineno
        if any(isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Load) and x.lineno > end for x in ast.walk(fn)):
            return None
        f = ast.For(target=ast.Name(i, ast.Store()), iter=None, body=n.body, orelse=n.orelse)
        ast.copy_location(f, n)
        ast.copy_location(f.target, n)
        f.end_lineno = end
        return f, v, hi

    def s_While(self, n, st):
        c = self.counted_while(n, st)
        if c is not None:
            f, v, hi = c
            lo = self.rd(self.ev(v, st), st)
            ix, elem = self.iter_elem(mk("range", lo, self.rd(self.ev(hi, st), st), const(1)), st, n)
            return self.loop(f, st, ix, elem, f.target, None)
        return self.loop(n, st, None, None, None, n.test)

    def literal_items(self, v, st):
        if v.op == "tuple" and (len(v.args[0]) <= 12 or len(v.args[0]) <= 40 and all(x.op == "const" for x in v.args[0])):
            return list(v.args[0])
        if v.op == "zipit":
            subs = [self.literal_items(x, st) for x in v.args[0]]
            if subs and all(s is not None for s in subs):
                return [mk("tuple", tuple(z)) for z in zip(*subs)]
            return None
        if v.op == "enumit":
            s = self.literal_items(v.args[0], st)
            if s is not None and isinstance(num(v.args[1]), int):
                return [mk("tuple", (const(i + num(v.args[1])), x)) for i, x in enumerate(s)]
            return None
        if v.op == "ref":
            c = st.heap.get(v.args[0])
            if isinstance(c, Lst) and c.base is None and (len(c.items) <= 12 or len(c.items) <= 40 and all(x.op == "const" for x in c.items)):
                return list(c.items)
            if isinstance(c, Dct) and c.base is None and len(c.entries) <= 12 and all(k.op == "const" for k, _ in c.entries):
                return [k for k, _ in c.entries]
            return None
        if v.op == "list" and is_const(v.args[0], None) and len(v.args[1]) <= 12:
            return list(v.args[1])
        if v.op == "range":
            lo, hi, stp = [num(x) for x in v.args]
            if None not in (lo, hi, stp) and stp and 0 <= (hi - lo) // stp <= 8:
                return [const(i) for i in range(lo, hi, stp)]
        return None

    def fresh_ix(self, lo, hi, step):
        from .algebra import canon
        lvl = 0
        lo, hi, step = canon(lo), canon(hi), canon(step)
        while True:
            t = mk("ix", lo, hi, step, lvl)
            if t not in self.active_ix:
                return t
            lvl += 1

    def iter_elem(self, v, st, node):
        """-> (ix, element value)"""
        one, zero = const(1), const(0)
        if v.op == "range":
            ix = self.fresh_ix(*v.args)
            return ix, ix
        if v.op == "enumit":
            ix, e = self.iter_elem(v.args[0], st, node)
            s = v.args[1]
            if is_const(s, 0):
                k = ix if (ix.op == "ix" and is_const(ix.args[0], 0)) else mk("pos", ix)
            else:
                k = self.binop("+", s, ix)
            return ix, mk("tuple", (k, e))
        if v.op == "zipit":
            parts = []
            ix0 = self.zip_dom(v.args[0], st)
            for x in v.args[0]:
                if x.op in ("range", "enumit", "zipit", "mapit"):
                    ix, e = self.iter_elem(x, st, node)
                    ix0 = ix0 or ix
                    if ix is not ix0:
                        e = subst(e, {ix.n: ix0}) if e.op != "ref" else e
                    parts.append(e)
                else:
                    if ix0 is None:
                        ix0 = self.dom_of(x, st)
                    parts.append(self.getitem(x, ix0, st))
            return ix0 or self.fresh_ix(zero, self.opaque("ziplen"), one), mk("tuple", tuple(parts))
        if v.op == "mapit":
            fn, seqs = v.args
            if len(seqs) == 1:
                ix, e = self.iter_elem(seqs[0], st, node)
                es = [e]
            else:
                ix, e = self.iter_elem(mk("zipit", seqs), st, node)
                es = list(e.args[0])
            return ix, self.apply(fn, es, {}, st, node)
        if v.op == "itemsit":
            d = v.args[0]
            c = st.heap.get(d.args[0]) if d.op == "ref" else None
            ix = self.fresh_ix(zero, mk("len", self.rd(d, st)), one)
            if isinstance(c, Dct) and len(c.entries) == 1 and c.entries[0][0].op == "ix":
                k, x = c.entries[0]
                return k, {"items": mk("tuple", (k, x)), "keys": k, "values": x}[v.args[1]]
            k = mk("key", self.rd(d, st), ix)
            x = mk("idx", self.rd(d, st), k)
            return ix, {"items": mk("tuple", (k, x)), "keys": k, "values": x}[v.args[1]]
        if v.op == "ref":
            c = st.heap.get(v.args[0])
            if isinstance(c, Dct):
                return self.iter_elem(mk("itemsit", v, "keys"), st, node)
            if isinstance(c, Lst) and c.base is not None and c.base.op == "map" and not c.items and not self.writes_elements():
                return c.base.args[0] if c.base.args[0] not in self.active_ix else self.dom_of(v, st), \
                    c.base.args[1] if c.base.args[0] not in self.active_ix else self.getitem(v, self.dom_of(v, st), st)
        if v.op == "map" and v.args[0].op == "ix" and v.args[0] not in self.active_ix:
            return v.args[0], v.args[1]
        ix = self.dom_of(v, st)
        return ix, self.getitem(v, ix, st)

    def zip_dom(self, seqs, st):
        """the positions of the shortest of the sequences, when it is not the first one"""
        from .algebra import canon
        ls = [self.mk_len(self.rd(x, st)) for x in seqs if x.op not in ("range", "enumit", "zipit", "mapit", "itemsit")]
        if len(ls) != len(seqs) or len(ls) < 2:
            return None
        best, moved = ls[0], False
        for x in ls[1:]:
            d = canon(mk("bin", "-", x, best))
            if d.op == "const" and isinstance(d.args[0], int):
                if d.args[0] < 0:
                    best, moved = x, True
            else:
                ZIPPED.add((canon(x), canon(best)))
        return self.fresh_ix(const(0), best, const(1)) if moved else None

    def dom_of(self, v, st):
        t = self.rd(v, st)
        return self.fresh_ix(const(0), self.mk_len(t), const(1))

    def sized(self, t):
        """an array known to have the shape of t"""
        while t.op == "upd" or t.n in self.shape0:
            u = t
            while u.op == "upd":
                u = u.args[0]
            if u.n not in self.shape0:
                break
            t = self.shape0[u.n]
        return t

    def mk_len(self, t):
        t = self.sized(t)
        if t.op == "tuple":
            return const(len(t.args[0]))
        if t.op == "list" and is_const(t.args[0], None):
            return const(len(t.args[1]))
        if t.op == "range":
            if is_const(t.args[0], 0) and is_const(t.args[2], 1):
                return t.args[1]
        if t.op == "map" and t.args[0].op == "ix" and is_const(t.args[0].args[0], 0) and is_const(t.args[0].args[2], 1):
            return t.args[0].args[1]
        if t.op == "call" and t.args[0].op == "glob" and t.args[0].args[1] in (
                "numpy.array", "numpy.asarray", "builtins.list", "numpy.zeros_like", "numpy.empty_like", "numpy.copy", "builtins.tuple") and t.args[1]:
            return self.mk_len(t.args[1][0])
        return mk("len", t)

    def loop(self, n, st, ix, elem, target, test):
        fr = self.stack[-1]
        changed_names, changed_oids = {}, {}
        base = st
        uid = self.uid()
        lp = None
        if ix is not None:
            self.active_ix.append(ix)
        try:
            prev, share = None, set()
            for rnd in range(6):
                self.rec += 1
                try:
                    lp, end, head = self.loop_pass(n, base, ix, elem, target, test, uid, changed_names, changed_oids, fr, share)
                finally:
                    self.rec -= 1
                # arrays that become one have to be treated as one when written in place
                again = {p for p, *rs in lp.split if end is not None and any(end.heap.get(r.args[0]) != head.heap.get(r.args[0]) for r in rs if r.op == "ref")}
                share |= again
                cn, co = self.changes(head, end, lp, changed_names, changed_oids, base, ix, fr)
                sig = (tuple(sorted(cn, key=str)), tuple(sorted(co)), tuple(sorted(((k, self.shape(v)) for k, v in cn.items()), key=str)),
                       tuple(sorted((k, str(v[0])) for k, v in co.items())))
                if sig == prev and not again:
                    break
                prev = sig
                changed_names, changed_oids = cn, co
            base = self.entangled(n, base, head, ix, elem, target, test, uid, changed_names, changed_oids, fr)
            # final, recorded pass
            lp, end, head = self.loop_pass(n, base, ix, elem, target, test, uid, changed_names, changed_oids, fr, share)
        finally:
            if ix is not None:
                self.active_ix.pop()
        lp.head = head
        if not self.rec:
            self.loops.append(lp)
        return self.loop_exit(n, lp, base, head, end, ix, test, changed_names, changed_oids, fr)

    def entangled(self, n, base, head, ix, elem, target, test, uid, cn, co, fr):
        """names that enter the loop as one array, are parted by the first iteration, and of which one is written in place in between:
        their initial value is marked if the first iteration depends on their being one"""
        for (fid, name) in cn:
            v0 = None if isinstance(fid, tuple) else self.held(base, fid, name)
            if v0 is None or v0.op != "ref" or v0.args[0] not in co or not isinstance(base.heap.get(v0.args[0]), Arr) or self.held(head, fid, name) is v0:
                continue
            if not any(v is v0 for f, e in base.envs.items() for k, v in e.items() if (f, k) != (fid, name)):
                continue
            apart = base.copy()
            apart.envs[fid] = dict(apart.envs[fid])
            apart.envs[fid][name] = self.new(apart, base.heap[v0.args[0]])
            got = [self.first_round(n, s, ix, elem, target, test, uid, fr) for s in (base, apart)]
            if None not in got and got[0] != got[1]:
                c = base.heap[v0.args[0]]
                apart.envs[fid][name] = self.new(apart, c._replace(t=mk("shared", c.t)))
                base = apart
        return base

    def first_round(self, n, st, ix, elem, target, test, uid, fr):
        """what the names hold after one iteration, and when it leaves the loop"""
        k = (self.nuid, len(self.approx))
        lp = Loop(uid, fr.func.qual, n)
        lp.share, lp.split, lp.path = (), [], fr.func.path
        lp.ix, lp.parent = ix, next((f.loops[-1] for f in reversed(self.stack) if f.loops), None)
        s = st.copy()
        s.pc = TRUE
        self.rec += 1
        fr.loops.append(lp)
        try:
            if target is not None:
                self.assign(target, elem, s, n)
            if test is not None:
                self.truth(self.ev(test, s), s)
            end = self.block(n.body, s)
            for pc, cs, _ in reversed(lp.continues):
                end = cs if end is None else self.merge(pc, cs, end)

            def seen(z):
                return {(f, x): self.rd(v, z).n for f, e in z.envs.items() if f in st.envs for x, v in e.items()} if z is not None else None
            return seen(end), [(pc.n, seen(z)) for pc, z, _ in lp.breaks]
        except (KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError):
            return None
        finally:
            fr.loops.pop()
            self.rec -= 1
            self.nuid = k[0]
            del self.approx[k[1]:]

    def shape(self, v):
        return v[0] if isinstance(v, tuple) else str(v)

    def loop_pass(self, n, base, ix, elem, target, test, uid, cn, co, fr, share=()):
        head = base.copy()
        lp = Loop(uid, fr.func.qual, n)
        lp.share, lp.split = share, []
        lp.ix, lp.parent = ix, next((f.loops[-1] for f in reversed(self.stack) if f.loops), None)
        lp.path = fr.func.path
        amap = {}
        # rebind changed names / cells to header values of the same shape
        for oid, (shape, label) in co.items():
            cell = head.heap.get(oid)
            if cell is None:
                continue
            head.heap[oid] = self.havoc_cell(shape, label, lp, amap, head, cell, base)
        for (fid, name), (sh, kindv) in cn.items():
            v0 = self.held(base, fid, name)
            if isinstance(fid, tuple):
                c = head.heap[fid[1]]
                v = self.havoc(sh, "self." + name, lp, amap, head, v0, base)
                head.heap[fid[1]] = c._replace(fields=dict(c.fields, **{name: v}))
                continue
            head.envs.setdefault(fid, {})[name] = self.havoc(sh, name, lp, amap, head, v0, base)
        s = head.copy()
        s.pc = base.pc
        loop_pc0 = base.pc
        s.pc = TRUE
        fr.loops.append(lp)
        try:
            if target is not None:
                e = elem
                self.assign(target, e, s, n)
            if test is not None:
                c = self.truth(self.ev(test, s), s)
                lp.cond = c
                self.event("while", n, cond=c, pc=loop_pc0, loop=uid)
                lp.header_state = s.copy()
                if c.op != "const":
                    s.pc = conj(s.pc, c)
            end = self.block(n.body, s)
            for pc, cs, _ in reversed(lp.continues):
                end = cs if end is None else self.merge(pc, cs, end)
        finally:
            fr.loops.pop()
        lp.base_pc = loop_pc0
        if end is not None:
            lp.final_pc = end.pc
            self.collected(base, head, end, co)
        return lp, end, head

    def collected(self, base, head, end, co):
        """an array that every iteration changes in place and puts into the same list: all the items are its last value"""
        def fix(c):
            if isinstance(c, Alt):
                return Alt(c.c, fix(c.a), fix(c.b))
            if not isinstance(c, Lst):
                return c
            items = []
            for v in c.items:
                if v.op == "ref" and v.args[0] in co and isinstance(base.heap.get(v.args[0]), Arr) and isinstance(end.heap.get(v.args[0]), Arr) and \
                        end.heap[v.args[0]].t is not head.heap[v.args[0]].t:
                    v = self.new(end, end.heap[v.args[0]]._replace(t=mk("shared", end.heap[v.args[0]].t)))
                items.append(v)
            return Lst(c.base, tuple(items))
        for oid in list(co):
            if isinstance(base.heap.get(oid), (Lst, Alt)) and isinstance(end.heap.get(oid), (Lst, Alt)):
                end.heap[oid] = fix(end.heap[oid])

    def describe(self, v, st, seen=()):
        """Shape of a value: used to rebuild it symbolically at a loop header."""
        if v.op == "tuple":
            return ("tuple",) + tuple(self.describe(x, st, seen) for x in v.args[0])
        if v.op == "ref":
            oid = v.args[0]
            c = st.heap.get(oid)
            if oid in seen:
                return ("opaque",)
            if isinstance(c, (Lst, Alt)):
                return ("list", oid)
            if isinstance(c, Dct):
                return ("dict", oid, tuple((k.n, self.describe(x, st, seen + (oid,))) for k, x in c.entries))
            if isinstance(c, Obj):
                return ("obj", oid)
            return ("arr", oid, self.kindof(v, st))
        if v.op in ("fn", "glob", "clo", "lam", "bm", "partial"):
            return ("val", v.n)
        return ("num", 0, self.kindof(v, st))

    def changes(self, head, end, lp, cn, co, base, ix, fr):
        """Names / cells whose value at the back edge differs from the header."""
        cn, co = dict(cn), dict(co)
        if end is None:
            states = [b[1] for b in lp.breaks]
            if not states:
                return cn, co
            end = states[0]
        private = set()
        if ix is not None:
            for oid, c in end.heap.items():
                if isinstance(c, Dct):
                    for k, x in c.entries:
                        if k is ix:
                            self.reach(x, end, private)
        for fid, env in end.envs.items():
            h = head.envs.get(fid)
            if h is None:
                continue
            for name, v in env.items():
                if h.get(name) is not v:
                    if name in base.envs.get(fid, {}):
                        cn[(fid, name)] = (self.describe(v, end), None)
        for oid, c in list(end.heap.items()):
            c0, h = base.heap.get(oid), head.heap.get(oid)
            if not (isinstance(c, Obj) and isinstance(c0, Obj) and isinstance(h, Obj)) or c.record:
                continue
            for k, v in c.fields.items():
                if h.fields.get(k) is v:
                    continue
                if k not in c0.fields:
                    # written here, and read before that in the same iteration
                    if (oid, k) not in self.lazy or self.rd(v, end) is mk("self0", k):
                        continue
                    t = mk("self0", k)
                    c0 = c0._replace(fields=dict(c0.fields, **{k: self.new(base, Arr(t, "unk", t, "self." + k))}))
                    base.heap[oid] = c0
                cn[(("o", oid), k)] = (self.describe(v, end), None)
        for oid, c in end.heap.items():
            if isinstance(c, Obj) and not c.record:
                continue
            if oid in base.heap and head.heap.get(oid) != c and oid not in private:
                if isinstance(c, Dct) and ix is not None:
                    oldc = base.heap[oid]
                    hb = head.heap.get(oid)
                    others = {(k.n, x.n) for k, x in c.entries if k is not ix}
                    if isinstance(hb, Dct) and c.base is hb.base and others <= {(k.n, x.n) for k, x in hb.entries if k is not ix} and oid not in co:
                        continue  # pointwise update at this iteration's own key
                lab = self.label_of(oid, end)
                co[oid] = (self.describe(mk("ref", oid), end), lab)
        return cn, co

    def held(self, st, fid, name):
        """the value of a local name, or of an attribute of an object"""
        if isinstance(fid, tuple):
            c = st.heap.get(fid[1])
            return c.fields.get(name) if isinstance(c, Obj) else None
        return st.envs.get(fid, {}).get(name)

    def reach(self, v, st, acc):
        if v.op == "tuple":
            for x in v.args[0]:
                self.reach(x, st, acc)
        elif v.op == "ref" and v.args[0] not in acc:
            acc.add(v.args[0])
            c = st.heap.get(v.args[0])
            if isinstance(c, Lst):
                for x in c.items:
                    self.reach(x, st, acc)

    def label_of(self, oid, st):
        c = st.heap.get(oid)
        lab = getattr(c, "label", None)
        if lab:
            return lab
        for fid in sorted(st.envs, reverse=True):
            for nme, v in st.envs[fid].items():
                if v.op == "ref" and v.args[0] == oid:
                    return nme
        for fid in sorted(st.envs, reverse=True):
            for nme, v in st.envs[fid].items():
                p = st.heap.get(v.args[0]) if v.op == "ref" else None
                if isinstance(p, Phi) and "undef" in (p.a.op, p.b.op) and any(x.op == "ref" and x.args[0] == oid for x in (p.a, p.b)):
                    return nme
        for o2, c2 in st.heap.items():
            if isinstance(c2, Obj):
                for k, v in c2.fields.items():
                    if v.op == "ref" and v.args[0] == oid:
                        return "self." + k
        return "cell%d" % oid

    def mu(self, lp, path, kind):
        k, p = 2, path
        while path in lp.kind:
            # another header value already goes by this name
            path, k = "%s~%d" % (p, k), k + 1
        lp.kind[path] = kind
        return mk("mu", lp.uid, path, kind)

    def havoc(self, sh, path, lp, amap, st, v0, base):
        if sh[0] == "tuple":
            return mk("tuple", tuple(self.havoc(x, "%s[%d]" % (path, i), lp, amap, st, None, base) for i, x in enumerate(sh[1:])))
        if sh[0] == "val":
            return by_n(sh[1])
        if sh[0] == "num":
            return self.mu(lp, path, sh[2] if sh[2] != "obj" else "unk")
        if sh[0] in ("arr", "list", "dict", "obj", "opaque"):
            key = sh[1] if len(sh) > 1 else None
            if key is not None and key in amap:
                w0 = amap.get(("v0", key))
                if sh[0] != "arr" or v0 is None or w0 is None or v0 is w0 or path in lp.share or key in base.heap:
                    return amap[key]
                # one array at the back edge, two different ones before the loop
                r = self.new(st, Arr(self.mu(lp, path, sh[2]), sh[2], None, path))
                lp.split.append((path, r, amap[key]))
                return r
            if key is not None and key in st.heap and key in base.heap and sh[0] in ("obj",):
                return mk("ref", key)
            if sh[0] == "arr":
                # a name that at the back edge refers to a cell existing before the loop keeps it
                if key in base.heap:
                    r = mk("ref", key)
                else:
                    r = self.new(st, Arr(self.mu(lp, path, sh[2]), sh[2], None, path))
            elif sh[0] == "list":
                if key in base.heap:
                    r = mk("ref", key)
                else:
                    r = self.new(st, Lst(self.mu(lp, path, "list"), ()))
            elif sh[0] == "dict":
                if key in base.heap:
                    r = mk("ref", key)
                else:
                    r = self.new(st, Dct(self.mu(lp, path, "dict"), ()))
            else:
                r = self.mu(lp, path, "unk")
            if key is not None:
                amap[key] = r
                amap["v0", key] = v0
            return r
        return self.mu(lp, path, "unk")

    def havoc_cell(self, sh, label, lp, amap, st, cell, base):
        if isinstance(cell, Arr):
            m = self.mu(lp, label, cell.kind)
            if cell.kind == "arr":
                self.shape0[m.n] = cell.t  # written in place: the shape stays
            return cell._replace(t=m)
        if isinstance(cell, View):
            return cell._replace(t=self.mu(lp, label, "arr"), idx=None if cell.how == "other" else cell.idx) if cell.t is not None else cell
        if isinstance(cell, (Lst, Alt)):
            return Lst(self.mu(lp, label, "list"), ())
        if isinstance(cell, Dct):
            if sh[0] == "dict" and sh[2]:
                ents = []
                for kn, s in sh[2]:
                    k = by_n(kn)
                    ents.append((k, self.havoc(s, "%s[%s]" % (label, key_label(k)), lp, amap, st, None, base)))
                return Dct(cell.base, tuple(ents))
            return Dct(self.mu(lp, label, "dict"), ())
        if isinstance(cell, Obj):
            return cell  # fields handled through field cells / rebinding below
        return Arr(self.mu(lp, label, "unk"), "unk", None, label)

    def loop_exit(self, n, lp, base, head, end, ix, test, cn, co, fr):
        # next values per header path
        def at(st, path_val):
            return self.rd(path_val, st)
        for (fid, name), (sh, _) in cn.items():
            hv = self.held(head, fid, name)
            v0 = self.held(base, fid, name)
            self.collect_next(lp, hv, head, self.held(end, fid, name) if end is not None else None, end, v0, base)
        for oid, (sh, label) in co.items():
            r = mk("ref", oid)
            if oid in head.heap:
                self.collect_next(lp, r, head, r if end is not None else None, end, r if oid in base.heap else None, base)
        # exhausted state
        exhausted = None
        infinite = test is not None and lp.cond is not None and is_const(lp.cond, True)
        if end is not None and not infinite:
            exhausted = end
            exhausted = self.reduce_exit(lp, exhausted, base, ix, cn, co, fr)
        elif end is None and not infinite and not lp.breaks:
            exhausted = base.copy()  # body always returns/raises; zero-trip exit
        elif end is None and not infinite:
            exhausted = base.copy()
        if exhausted is not None:
            exhausted.pc = base.pc
            exhausted.pc = conj(base.pc, mk("exhausted", lp.uid)) if (lp.breaks or self.has_return(fr, lp)) else base.pc
            if n.orelse:
                exhausted = self.block(n.orelse, exhausted)
        acc = exhausted
        for k, (pc, s, node) in reversed(list(enumerate(lp.breaks))):
            s = s.copy()
            s.pc = conj(base.pc, mk("exited", lp.uid, k))
            if acc is None:
                acc = s
            else:
                pcacc = acc.pc
                acc = self.merge(mk("exited", lp.uid, k), s, acc)
                acc.pc = base.pc if exhausted is not None else base.pc
        if acc is not None and lp.breaks:
            acc.pc = base.pc
            if self.has_return(fr, lp):
                acc.pc = conj(base.pc, mk("not_returned", lp.uid))
        return acc

    def has_return(self, fr, lp):
        return any(isinstance(x, ast.Return) for x in ast.walk(lp.node))

    def collect_next(self, lp, hv, head, ev, end, v0, base):
        if hv is None:
            return
        if hv.op == "tuple":
            for i, x in enumerate(hv.args[0]):
                e2 = ev.args[0][i] if ev is not None and ev.op == "tuple" and i < len(ev.args[0]) else None
                b2 = v0.args[0][i] if v0 is not None and v0.op == "tuple" and i < len(v0.args[0]) else None
                self.collect_next(lp, x, head, e2, end, b2, base)
            return
        if hv.op == "ref":
            c = head.heap.get(hv.args[0])
            if isinstance(c, Dct):
                ec = end.heap.get(ev.args[0]) if end is not None and ev is not None and ev.op == "ref" else None
                bc = base.heap.get(v0.args[0]) if v0 is not None and v0.op == "ref" else None
                for k, x in c.entries:
                    e2 = dict(ec.entries).get(k) if isinstance(ec, Dct) else None
                    b2 = dict(bc.entries).get(k) if isinstance(bc, Dct) else None
                    self.collect_next(lp, x, head, e2, end, b2, base)
                if c.base is not None and c.base.op == "mu":
                    lp.next.setdefault(c.base.args[1], self.rd(ev, end) if end is not None and ev is not None else None)
                return
        t = self.rd(hv, head)
        if t.op == "list" and t.args[0].op == "mu":
            t = t.args[0]
        if t.op == "mu" and t.args[0] == lp.uid:
            path = t.args[1]
            if end is not None and ev is not None:
                lp.next.setdefault(path, self.rd(ev, end))
            if v0 is not None:
                try:
                    t0 = self.rd(v0, base)
                    t1 = lp.init.setdefault(path, t0)
                    if t1 is not t0 and not (t1.op == "opaque" and t0 in t1.args[2]):
                        # two values before the loop, one and the same array from the first iteration on
                        lp.init[path] = self.opaque("alias", *((t1.args[2] if t1.op == "opaque" and t1.args[0] == "alias" else (t1,)) + (t0,)))
                except KeyError:
                    pass

    def reduce_exit(self, lp, st, base, ix, cn, co, fr):
        """Closed forms for accumulations over the loop's index set."""
        if ix is None or lp.breaks or self.has_return(fr, lp):
            return st
        st = st.copy()
        nexts = {v.n for v in lp.next.values() if v is not None}

        def closed(t):
            # only the value a header variable has at the end of the body has a closed form over the index set
            if t.op in ("bin", "upd", "ite") and (t.n in nexts or t.op == "upd"):
                return self.closed(t, lp, ix)
            return t
        for oid, c in list(st.heap.items()):
            if isinstance(c, Arr):
                t2 = closed(c.t)
                if t2 is not c.t:
                    st.heap[oid] = c._replace(t=t2)
            elif isinstance(c, Lst) and c.base is not None and c.base.op == "mu" and c.base.args[0] == lp.uid:
                init = lp.init.get(c.base.args[1])
                if init is not None and init.op == "list" and is_const(init.args[0], None) and not init.args[1] and len(c.items) == 1:
                    body = self.rd(c.items[0], st)
                    if not self.mentions_mu(body, lp):
                        st.heap[oid] = Lst(mk("map", ix, body), ())
            elif isinstance(c, Alt):
                r = self.closed_alt(c, lp, ix, st)
                if r is not None:
                    st.heap[oid] = r
        for fid, env in st.envs.items():
            for k, v in env.items():
                if v.op == "tuple":
                    continue
                if v.op == "ref" and isinstance(st.heap.get(v.args[0]), (Arr, Lst, Dct, Obj)):
                    continue
                t = self.rd(v, st)
                t2 = closed(t)
                if t2 is not t:
                    env[k] = self.boxed(t2, st) if v.op == "ref" or t.op == "ite" else t2
        return st

    def closed_alt(self, c, lp, ix, st):
        """conditional append: a filtered comprehension, or one of two lists when the condition is the same for every iteration"""
        cond, a, b = c.c, c.a, c.b
        if isinstance(a, Lst) and isinstance(b, Lst) and not a.items and b.items:
            cond, a, b = neg(cond), b, a
        if not (isinstance(a, Lst) and isinstance(b, Lst)) or a.base is None or a.base is not b.base or b.items or len(a.items) != 1:
            return None
        if a.base.op != "mu" or a.base.args[0] != lp.uid or self.mentions_mu(cond, lp):
            return None
        init = lp.init.get(a.base.args[1])
        if init is None or init.op != "list" or not is_const(init.args[0], None) or init.args[1]:
            return None
        body = self.rd(a.items[0], st)
        if self.mentions_mu(body, lp):
            return None
        if any(x is ix for x in walk(cond)) or any(x.op in ("ref", "draw") for x in walk(cond)):
            return Lst(mk("filt", ix, cond, body), ())
        return Alt(cond, Lst(mk("map", ix, body), ()), Lst(None, ()))

    def mentions_mu(self, t, lp):
        return any(x.op == "mu" and x.args[0] == lp.uid for x in walk(t))

    def covers(self, ix, arr):
        from .algebra import canon, len_of
        return is_const(ix.args[0], 0) and is_const(ix.args[2], 1) and canon(ix.args[1]) is len_of(arr)

    def closed(self, t, lp, ix):
        if t.op == "upd" and t.args[0].op == "mu" and t.args[0].args[0] == lp.uid and t.args[1] is ix and not self.mentions_mu(t.args[2], lp):
            init = lp.init.get(t.args[0].args[1])
            out = mk("map", ix, t.args[2])
            if init is None or is_const(ix.args[0], 0) and (init.op != "upd" or self.covers(ix, init)) or not is_const(ix.args[2], 1):
                return out
            # the entries before and after the range keep what they were given before the loop
            return mk("upd", init, mk("slice", ix.args[0], ix.args[1], NONE), out)
        from .algebra import linear_in_mu

        def delta(x):
            """x == mu + delta, over conditionals -> (mu, delta) or None"""
            if x.op == "mu" and x.args[0] == lp.uid:
                return x, const(0)
            if x.op == "ite" and not self.mentions_mu(x.args[0], lp):
                p, q = delta(x.args[1]), delta(x.args[2])
                if p is None or q is None or p[0] is not q[0]:
                    return None
                return p[0], ite(x.args[0], p[1], q[1])
            if x.op in ("bin", "upd"):
                r = linear_in_mu(x, lp.uid)
                if r is not None and not self.mentions_mu(r[1], lp):
                    return r
            return None
        if t.op in ("bin", "upd", "ite"):
            r = delta(t)
            if r is not None and not is_const(r[1], 0):
                m, rest = r
                init = lp.init.get(m.args[1])
                if init is not None:
                    return mk("bin", "+", init, mk("rsum", ix, rest))
        return t

    # ------------------------------------------------------------------ expressions
    def truth(self, v, st):
        if v.op == "ref":
            c = st.heap.get(v.args[0])
            if isinstance(c, Lst) and c.base is None:
                return const(bool(c.items))
            if isinstance(c, Dct) and c.base is None:
                return const(bool(c.entries))
            t = self.rd(v, st)
            return t if t.op in ("truthy", "cmp", "not") else mk("truthy", t)
        t = v
        if t.op == "ite":
            # either branch read as a truth value, as it would be on its own
            return ite(t.args[0], self.truth(t.args[1], st), self.truth(t.args[2], st))
        if t.op == "const":
            try:
                return const(bool(t.args[0]))
            except Exception:
                return t
        if t.op in ("cmp", "not", "and", "or", "exited", "exhausted", "ite", "truthy", "exc"):
            return t
        if t.op == "tuple":
            return const(bool(t.args[0]))
        if t.op in ("fn", "glob", "clo", "lam"):
            return TRUE
        if t.op in ("attr", "param", "self0"):
            return mk("truthy", t)
        return t

    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.opaque(type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if v is Ellipsis:
            return mk("ellipsis")
        return const(v)

    def e_JoinedStr(self, n, st):
        parts = []
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                parts.append(self.rd(self.ev(x.value, st), st))
        return mk("fstr", tuple(parts))

    def e_Name(self, n, st):
        return self.load_name(n, st)

    def bound(self, v, st):
        """a name bound on one branch only, read where the condition of that branch is known to hold"""
        while v.op == "ref":
            c = st.heap.get(v.args[0])
            if not isinstance(c, Phi) or "undef" not in (c.a.op, c.b.op):
                break
            g, x = (c.c, c.a) if c.b.op == "undef" else (neg(c.c), c.b)
            if x.op == "ref" and any(y is g for y in (st.pc.args[0] if st.pc.op == "and" else (st.pc,))):
                v = x
                continue
            break
        return v

    def load_name(self, n, st):
        fr = self.stack[-1]
        v, _ = self.lookup_env(st, fr, n.id)
        if v is not None:
            self.event("load", n, name=n.id, value=v, pc=st.pc) if v.op == "undef" else None
            return self.bound(v, st)
        f = fr
        while f is not None:
            if n.id in f.imports:
                return self.resolved(self.p.resolve_dotted(f.imports[n.id]), n)
            f = f.outer
        r = self.p.resolve_in(fr.func.mod, n.id)
        if r is None:
            import builtins
            if hasattr(builtins, n.id):
                return mk("glob", "ext", "builtins." + n.id)
            if n.id == "__file__" or n.id == "__name__":
                return mk("opaque", n.id, 0, ())
            self.event("unbound", n, name=n.id, pc=st.pc, local=n.id in assigned_names(fr.func.node))
            return mk("unbound", n.id)
        return self.resolved(r, n, st)

    def table(self, m, name, node):
        """a module-level literal that nothing in its module modifies"""
        k = (m.name, name)
        if k not in self.tables:
            ok = isinstance(node, (ast.Dict, ast.Tuple, ast.List, ast.Set)) or (
                isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("partial", "frozenset", "tuple", "dict"))
            for x in ast.walk(node):
                if not isinstance(x, (ast.Dict, ast.Tuple, ast.List, ast.Set, ast.Constant, ast.Name, ast.Attribute, ast.Call, ast.keyword, ast.Lambda,
                                      ast.expr_context, ast.UnaryOp, ast.unaryop, ast.BinOp, ast.operator, ast.arguments, ast.arg)):
                    ok = False
                if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("partial", "frozenset", "tuple", "dict", "range")):
                    ok = False
            if ok:
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Global) and name in x.names:
                        ok = False
                    if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.value, ast.Name) and x.value.id == name and (
                            isinstance(x.ctx, (ast.Store, ast.Del)) or isinstance(x, ast.Attribute) and x.attr in
                            ("append", "extend", "update", "pop", "setdefault", "clear", "insert", "remove", "add", "popitem", "sort", "reverse")):
                        ok = False
                    if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                        ok = False
            self.tables[k] = ok
        return self.tables[k]

    def resolved(self, r, n, st=None):
        if r[0] == "func":
            return mk("glob", "func", r[1].qual, r[1].mod.name)
        if r[0] == "class":
            return mk("glob", "class", r[1].qual)
        if r[0] == "mod":
            return mk("glob", "mod", r[1])
        if r[0] == "ext":
            return mk("glob", "ext", r[1])
        if r[0] == "const":
            m, name = r[1], r[2]
            node = m.assigns[name]
            if isinstance(node, ast.Constant):
                return const(node.value)
            if isinstance(node, (ast.Name, ast.Attribute)):
                rr = self.p.resolve_expr(m, node)
                if rr is not None and rr[0] in ("func", "class", "ext", "mod") and rr[1:] != ("builtins." + name,):
                    return self.resolved(rr, n)
            if isinstance(node, ast.Lambda):
                f = FuncInfo(m, node)
                f.name = name
                f.qual = m.name + "." + name
                u = self.uid()
                self.funcs[u] = (f, None)
                return mk("clo", u, f.qual)
            if st is not None and self.table(m, name, node):
                self.nfid += 1
                fr = Frame(self.nfid, FuncInfo(m, MODULE_FRAME), None, None)
                st.envs[fr.fid] = {}
                self.stack.append(fr)
                try:
                    return self.ev(node, st)
                finally:
                    self.stack.pop()
                    del st.envs[fr.fid]
            return mk("glob", "data", m.name + "." + name)
        if r[0] == "missing":
            self.event("missing_import", n, name=r[1])
            return mk("unbound", r[1])
        return self.opaque("resolve")

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        return self.getattr(b, n.attr, st, n)

    def getattr(self, b, attr, st, n):
        if b.op == "glob":
            k = b.args[0]
            if k in ("mod", "ext"):
                r = self.p.member(("mod" if k == "mod" else "ext", b.args[1]), attr)
                if r is None:
                    return self.opaque("member")
                return self.resolved(r, n, st)
            if k == "class":
                c = self.p.cls(b.args[1])
                f = self.p.find_method(c, attr)
                if f:
                    return mk("glob", "func", f.qual, "")
                return mk("attr", b, attr)
            if k == "func" and attr in ("__name__", "__doc__", "__dict__"):
                return mk("attr", b, attr)
        if b.op == "super":
            cls, after, selfv = self._super[b.args[0]]
            f = self.p.find_method(cls, attr, after=after)
            if f is None:
                return mk("extmethod", attr, "super")
            return mk("bm", selfv, self.reg(f))
        if b.op == "rec":
            for k, x in b.args[1]:
                if k == attr:
                    return x
        if b.op == "ref":
            c = st.heap.get(b.args[0])
            if isinstance(c, Obj):
                if attr in c.fields:
                    v = c.fields[attr]
                    return v
                if c.cls is not None:
                    f = self.p.find_method(c.cls, attr)
                    if f is not None:
                        if any(d in ("property", "cached_property") for d in f.decorators):
                            return self.call_func(f, [b], {}, st, n)
                        if "staticmethod" in f.decorators:
                            return mk("glob", "func", f.qual, "")
                        return mk("bm", b, self.reg(f))
                    fa = self.p.find_attr(c.cls, attr)
                    if fa is not None and not c.record:
                        try:
                            lit = ast.literal_eval(fa[1])
                        except Exception:
                            return mk("self0", attr)
                        if isinstance(lit, (list, dict, set)):
                            return mk("glob", "data", fa[0].qual + "." + attr)
                        return const(lit)
                if c.record:
                    return self.opaque("recattr")
                # unknown field of self: symbolic initial value, its own cell
                self.event("self_read", n, field=attr, pc=st.pc, cls=c.cls.qual if c.cls else None)
                self.lazy.add((b.args[0], attr))
                t = mk("self0", attr)
                r = self.new(st, Arr(t, "unk", t, "self." + attr))
                f2 = dict(c.fields)
                f2[attr] = r
                st.heap[b.args[0]] = c._replace(fields=f2)
                return r
            if isinstance(c, (Arr, View, Phi)):
                rt = self.rd(b, st)
                if rt.op == "rec":
                    return self.getattr(rt, attr, st, n)
                if rt.op == "ite" and (rt.args[1].op == "rec" or rt.args[2].op == "rec"):
                    return self.rec_attr(rt, attr)
                if attr == "T":
                    self.event("axes", self.cur, how="tr", style="all", operand=self.rd(b, st))
                    return self.new(st, View(b.args[0], "tr", None, False, None))
                if attr in ("flat", "data", "real", "base"):
                    return self.new(st, View(b.args[0], attr, None, False, None))
                if attr in ("shape", "size", "ndim"):
                    rt = self.sized(rt)
                return mk("attr", rt, attr)
            if isinstance(c, (Lst, Alt, Dct)):
                return mk("bmeth", b, attr)
            return mk("attr", self.rd(b, st), attr)
        t = self.rd(b, st)
        if attr == "T":
            self.event("axes", self.cur, how="tr", style="all", operand=t)
            return mk("tr", t)
        if t.op == "ite" and (t.args[1].op == "rec" or t.args[2].op == "rec"):
            return self.rec_attr(t, attr)
        return mk("attr", t, attr)

    def rec_attr(self, t, attr):
        if t.op == "ite":
            return ite(t.args[0], self.rec_attr(t.args[1], attr), self.rec_attr(t.args[2], attr))
        if t.op == "rec":
            for k, x in t.args[1]:
                if k == attr:
                    return x
        return mk("attr", t, attr)

    def reg(self, f):
        for u, (g, o) in self.funcs.items():
            if g is f:
                return mk("clo", u, f.qual)
        u = self.uid()
        self.funcs[u] = (f, None)
        return mk("clo", u, f.qual)

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        i = self.rd(self.ev_index(n.slice, st), st)
        return self.getitem(b, i, st)

    def ev_index(self, n, st):
        if isinstance(n, ast.Slice):
            g = lambda x: NONE if x is None else self.rd(self.ev(x, st), st)
            return mk("slice", g(n.lower), g(n.upper), g(n.step))
        if isinstance(n, ast.Tuple):
            return mk("tuple", tuple(self.rd(self.ev_index(x, st), st) for x in n.elts))
        return self.ev(n, st)

    def basic_index(self, i):
        if i.op in ("slice", "ix", "ellipsis", "pos") or is_const(i, None) or isinstance(num(i), int):
            return True
        if i.op == "un" and isinstance(num(i.args[1]), int):
            return True
        if i.op == "tuple":
            return all(self.basic_index(x) for x in i.args[0])
        return False

    def writes_elements(self):
        """does the function change, in place, something it read out of a container?"""
        if not self.stack:
            return False
        node = self.stack[-1].func.node
        return writes_elements(node) or bool(hands_elements(node) & self.mutators())

    def mutators(self):
        """names of functions that change an argument in place"""
        m = getattr(self.p, "_mutators", None)
        if m is None:
            fs = [f for x in self.p.modules.values() for f in list(x.functions.values()) + [g for c in x.classes.values() for g in c.methods.values()]]
            m = self.p._mutators = {f.name for f in fs if set(f.pos) & mutated_names(f.node)}
        return m

    def getitem(self, b, i, st):
        if b.op == "ref":
            c = st.heap.get(b.args[0])
            if isinstance(c, Lst):
                n = num(i)
                if isinstance(n, int) and ((c.base is None and -len(c.items) <= n < len(c.items)) or (n < 0 and -n <= len(c.items))):
                    return c.items[n]
                if i.op != "slice" and self.writes_elements():
                    if isinstance(n, int) and n < 0 and c.base is not None:
                        # counted from the end of the part that is older than the appended items
                        return self.new(st, View(b.args[0], "belem", const(n + len(c.items)), False, None))
                    if not (isinstance(n, int) and n < 0):
                        return self.new(st, View(b.args[0], "elem", i, False, None))
                return self.mk_idx(self.rd(b, st), i)
            if isinstance(c, Dct):
                for k, x in c.entries:
                    if k is i:
                        return x
                if c.base is None and 0 < len(c.entries) <= 12 and i.op in ("param", "self0", "attr", "idx", "mu", "ite") and all(
                        k.op == "const" and isinstance(k.args[0], str) for k, _ in c.entries):
                    # a constant table looked up with a variable key: one case per key, KeyError otherwise
                    self.event("raise", self.cur, exc=mk("glob", "ext", "builtins.KeyError"), pc=conj(st.pc, neg(self.member(i, [k for k, _ in c.entries]))))
                    acc = mk("missing_key")
                    for k, x in reversed(c.entries):
                        e = mk("cmp", "==", i, k)
                        acc = self.new(st, Phi(e, x, acc)) if x.op == "ref" or acc.op == "ref" else ite(e, x, acc)
                    return acc
                # unique symbolic key: reading another index of the same pointwise family
                if self.writes_elements():
                    return self.new(st, View(b.args[0], "elem", i, False, None))
                return mk("idx", self.rd(b, st), i)
            if isinstance(c, (Arr, View, Phi)):
                t = self.rd(b, st)
                if t.op == "map" and i.op != "slice" and self.writes_elements():
                    return self.new(st, View(b.args[0], "elem", i, False, None))
                if t.op in ("tuple", "list", "dict", "map") or t.op == "ite":
                    r = self.mk_idx(t, i)
                    if r.op != "idx":
                        return r
                if self.basic_index(i):
                    if isinstance(c, View) and c.how == "idx" and False:
                        pass
                    return self.new(st, View(b.args[0], "idx", i, False, None))
                return self.mk_idx(t, i)
            if isinstance(c, Alt):
                return self.mk_idx(self.rd(b, st), i)
            return self.mk_idx(self.rd(b, st), i)
        if b.op == "tuple":
            n = num(i)
            if isinstance(n, int) and -len(b.args[0]) <= n < len(b.args[0]):
                return b.args[0][n]
        return self.mk_idx(self.rd(b, st), i)

    @staticmethod
    def member(x, keys):
        return disj(*[fold_cmp(mk("cmp", "==", x, k)) for k in keys])

    def e_Slice(self, n, st):
        return self.ev_index(n, st)

    def e_Tuple(self, n, st):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                t = v
                if v.op == "ref" and isinstance(st.heap.get(v.args[0]), Lst) and st.heap[v.args[0]].base is None:
                    out.extend(st.heap[v.args[0]].items)
                elif t.op == "tuple":
                    out.extend(t.args[0])
                else:
                    return mk("startuple", tuple(self.rd(self.ev(x.value if isinstance(x, ast.Starred) else x, st), st) for x in n.elts))
            else:
                out.append(self.boxed(self.ev(e, st), st))
        return mk("tuple", tuple(out))

    def e_List(self, n, st):
        if not any(isinstance(e, ast.Starred) for e in n.elts):
            return self.new(st, Lst(None, self.e_Tuple(n, st).args[0]))
        cell, vals = Lst(None, ()), []
        for k, e in enumerate(n.elts):
            v = self.ev(e.value if isinstance(e, ast.Starred) else e, st)
            if not isinstance(e, ast.Starred):
                v = self.boxed(v, st)
                more = Lst(None, (v,))
            elif v.op == "tuple":
                more = Lst(None, v.args[0])
            else:
                more = st.heap.get(v.args[0]) if v.op == "ref" else None
                if k == 0 and isinstance(more, Lst):
                    cell = Lst(more.base, ())
                    more = Lst(None, more.items)
            vals.append(v)
            cell = joined(cell, more) if cell is not None else None
        if cell is None:
            return mk("startuple", tuple(self.rd(v, st) for v in vals))
        return self.new(st, cell)

    def e_Set(self, n, st):
        return mk("set", tuple(self.rd(self.ev(e, st), st) for e in n.elts))

    def e_Dict(self, n, st):
        ents = []
        base = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v, st)
                c = st.heap.get(d.args[0]) if d.op == "ref" else None
                if isinstance(c, Dct) and c.base is None:
                    new = dict(c.entries)
                    ents = [(x, new.pop(x, y)) for x, y in ents] + list(new.items())
                elif ents or base is not None:
                    return self.opaque("dict", *[self.rd(x, st) for e in ents for x in e] + [self.rd(d, st)])
                else:
                    base = self.rd(d, st)
            else:
                kk = self.rd(self.ev(k, st), st)
                val = self.boxed(self.ev(v, st), st)
                if any(x is kk for x, _ in ents):
                    ents = [(x, val if x is kk else y) for x, y in ents]
                else:
                    ents.append((kk, val))
        return self.new(st, Dct(base, tuple(ents)))

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return neg(self.truth(v, st))
        t = self.rd(v, st)
        if isinstance(n.op, ast.USub):
            if num(t) is not None:
                return const(-num(t))
            return mk("un", "-", t)
        if isinstance(n.op, ast.UAdd):
            return t
        return mk("un", "~", t)

    def e_BinOp(self, n, st):
        a, b = self.ev(n.left, st), self.ev(n.right, st)
        op = BINOPS[type(n.op)]
        if op == "+" and a.op == "ref" and isinstance(st.heap.get(a.args[0]), Lst):
            cb = st.heap.get(b.args[0]) if b.op == "ref" else None
            ca = st.heap[a.args[0]]
            if isinstance(cb, Lst) and cb.base is None:
                return self.new(st, Lst(ca.base, ca.items + cb.items))
        if op == "+" and a.op == "ref" and b.op == "ref":
            j = joined(st.heap.get(a.args[0]), st.heap.get(b.args[0]))
            if j is not None:
                return self.new(st, j)
        if op == "+" and a.op == "tuple" and b.op == "tuple":
            return mk("tuple", a.args[0] + b.args[0])
        return self.binop(op, self.rd(a, st), self.rd(b, st))

    def e_BoolOp(self, n, st):
        vals = [self.ev(x, st) for x in n.values]
        ts = [self.truth(v, st) for v in vals]
        isand = isinstance(n.op, ast.And)
        if all(t.op in ("cmp", "not", "and", "or", "const", "exited", "exhausted") for t in ts) and all(
                v.op in ("cmp", "not", "and", "or", "exited") or is_const(v, True, False) for v in vals):
            return conj(*ts) if isand else disj(*ts)
        # value semantics: x or y
        acc = vals[-1]
        for v, t in reversed(list(zip(vals[:-1], ts[:-1]))):
            self.event("boolop", n, operand=v, operand_t=self.rd(v, st), op="and" if isand else "or", pc=st.pc)
            if t.op == "const":
                acc = (acc if t.args[0] else v) if isand else (v if t.args[0] else acc)
            elif v.op in ("ref",) or acc.op == "ref":
                acc = self.new(st, Phi(t, acc, v) if isand else Phi(t, v, acc))
            else:
                acc = ite(t, acc, v) if isand else ite(t, v, acc)
        return acc

    def e_Compare(self, n, st):
        l = self.ev(n.left, st)
        res = []
        lt = self.rd(l, st)
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c, st)
            rt = self.rd(r, st)
            t = mk("cmp", CMPOPS[type(op)], lt, rt)
            if t.args[0] in ("is", "is not") and is_const(rt, None) and l.op == "ref":
                cc = st.heap.get(l.args[0])
                if isinstance(cc, (Lst, Dct, Obj)) or (isinstance(cc, Arr) and cc.kind == "arr"):
                    t = const(t.args[0] == "is not")
            self.event("cmp", n, term=t, pc=st.pc)
            if t.op == "cmp" and t.args[0] in ("in", "not in"):
                ks = rt.args[0] if rt.op in ("tuple", "set") else rt.args[1] if rt.op == "list" and is_const(rt.args[0], None) else \
                    [k for k, _ in rt.args[1]] if rt.op == "dict" and is_const(rt.args[0], None) else None
                if ks is not None and all(k.op == "const" for k in ks):
                    t = self.member(lt, ks)
                    t = t if op.__class__ is ast.In else neg(t)
            res.append(fold_cmp(t) if t.op == "cmp" else t)
            lt, l = rt, r
        return conj(*res) if len(res) > 1 else res[0]

    def e_IfExp(self, n, st):
        c = self.truth(self.ev(n.test, st), st)
        if c.op == "const":
            return self.ev(n.body if c.args[0] else n.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = conj(st.pc, c), conj(st.pc, neg(c))
        a, b = self.ev(n.body, s1), self.ev(n.orelse, s2)
        m = self.merge(c, s1, s2)
        v = self.merge_val(c, a, b, m, s1, s2)
        st.heap.update(m.heap)
        for fid, env in m.envs.items():
            if fid in st.envs:
                st.envs[fid].update(env)
        return v

    def e_Lambda(self, n, st):
        fr = self.stack[-1]
        f = FuncInfo(fr.func.mod, n, parent=fr.func)
        u = self.uid()
        self.funcs[u] = (f, fr)
        return mk("clo", u, f.qual)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.bind(st, n.target.id, v)
        return self.lookup_env(st, self.stack[-1], n.target.id)[0]

    def e_Starred(self, n, st):
        return mk("star", self.rd(self.ev(n.value, st), st))

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        if n.value is not None:
            self.ev(n.value, st)
        return self.opaque("yield")

    def comp(self, n, elt, st):
        gens = n.generators
        fr = self.new_frame(self.stack[-1].func, self.stack[-1].self_cls, self.stack[-1])
        fr.imports = self.stack[-1].imports
        st.envs[fr.fid] = {}
        self.stack.append(fr)
        pushed = 0
        try:
            return self.comp_rec(gens, 0, elt, st, n)
        finally:
            self.stack.pop()
            st.envs.pop(fr.fid, None)

    def comp_rec(self, gens, k, elt, st, n):
        if k == len(gens):
            return [self.boxed(self.ev(elt, st), st)] if not isinstance(elt, tuple) else [
                mk("tuple", (self.rd(self.ev(elt[0], st), st), self.boxed(self.ev(elt[1], st), st)))]
        g = gens[k]
        itv = self.ev(g.iter, st)
        lit = self.literal_items(itv, st)
        if lit is not None and not g.ifs and len(lit) <= (40 if isinstance(elt, tuple) else 6):
            out = []
            for x in lit:
                self.assign(g.target, x, st, n)
                r = self.comp_rec(gens, k + 1, elt, st, n)
                if not isinstance(r, list):
                    out = None
                    break
                out.extend(r)
            if out is not None:
                return out
        ix, e = self.iter_elem(itv, st, n)
        self.active_ix.append(ix)
        try:
            self.assign(g.target, e, st, n)
            conds = [self.truth(self.ev(c, st), st) for c in g.ifs]
            if conds:
                pc = st.pc
                st.pc = conj(pc, *conds)
            r = self.comp_rec(gens, k + 1, elt, st, n)
            if conds:
                st.pc = pc
        finally:
            self.active_ix.pop()
        body = self.rd(r[0], st) if isinstance(r, list) and len(r) == 1 else (
            mk("tuple", tuple(self.rd(x, st) for x in r)) if isinstance(r, list) else r)
        if conds:
            return mk("filt", ix, conj(*conds), body)
        return mk("map", ix, body)

    def e_ListComp(self, n, st):
        r = self.comp(n, n.elt, st)
        if isinstance(r, list):
            return self.new(st, Lst(None, tuple(r)))
        return r

    def e_GeneratorExp(self, n, st):
        r = self.comp(n, n.elt, st)
        if isinstance(r, list):
            return mk("tuple", tuple(r))
        return r

    def e_SetComp(self, n, st):
        r = self.comp(n, n.elt, st)
        return mk("setcomp", r) if isinstance(r, T) else mk("set", tuple(self.rd(x, st) for x in r))

    def e_DictComp(self, n, st):
        r = self.comp(n, (n.key, n.value), st)
        if isinstance(r, list):
            return self.new(st, Dct(None, tuple((x.args[0][0], x.args[0][1]) for x in r)))
        if r.op == "map" and r.args[1].op == "tuple":
            k, v = r.args[1].args[0]
            if k is r.args[0]:
                return self.new(st, Dct(None, ((k, self.boxed(v, st)),)))
        return mk("dictcomp", r)

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            fr = self.stack[-1]
            while fr.func.cls is None and fr.outer is not None:
                fr = fr.outer
            cls = fr.func.cls
            sname = fr.func.pos[0] if fr.func.pos else None
            selfv = self.lookup_env(st, fr, sname)[0] if sname else None
            if len(n.args) == 2:
                a0, selfv = self.ev(n.args[0], st), self.ev(n.args[1], st)
                if a0.op == "attr" and a0.args[1] == "__class__":
                    a0 = mk("glob", "class", cls.qual, "") if cls is not None else a0
                if a0.op == "glob" and a0.args[0] == "class":
                    cls = self.p.cls(a0.args[1])
            if cls is not None and selfv is not None:
                c = st.heap.get(selfv.args[0]) if selfv.op == "ref" else None
                dyn = c.cls if isinstance(c, Obj) else cls
                after = cls
                if n.args:
                    a0 = self.ev(n.args[0], st)
                    if a0.op == "glob" and a0.args[0] == "class":
                        after = self.p.cls(a0.args[1])
                u = self.uid()
                if not hasattr(self, "_super"):
                    self._super = {}
                self._super[u] = (dyn, after, selfv)
                return mk("super", u)
        owner = self.fields_owner(n, st)
        if owner is not None:
            f = b = None
        elif isinstance(n.func, ast.Attribute):
            b = self.ev(n.func.value, st)
            f = self.method_target(b, n.func.attr, st, n)
        else:
            f, b = self.ev(n.func, st), None
        args, kw = [], {}
        star = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                t = v
                if v.op == "ref" and isinstance(st.heap.get(v.args[0]), Lst) and st.heap[v.args[0]].base is None:
                    args.extend(st.heap[v.args[0]].items)
                elif t.op == "tuple":
                    args.extend(t.args[0])
                else:
                    star = self.rd(v, st)
                    args.append(mk("star", star))
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                c = st.heap.get(v.args[0]) if v.op == "ref" else None
                if isinstance(c, Dct) and c.base is None and all(isinstance(kk.args[0], str) for kk, _ in c.entries if kk.op == "const") and all(kk.op == "const" for kk, _ in c.entries):
                    for kk, x in c.entries:
                        kw[kk.args[0]] = x
                else:
                    kw["**"] = mk("tuple", ((kw["**"], v) if "**" in kw else (v,)))
            else:
                kw[k.arg] = v
        if owner is not None:
            return self.set_fields(owner, args, kw, st, n)
        return self.apply(f, args, kw, st, n)

    def fields_owner(self, n, st):
        """the object whose attributes `obj.__dict__.update(...)`, `vars(obj).update(...)` or `obj.__setattr__(...)` sets"""
        f = n.func
        if not isinstance(f, ast.Attribute):
            return None
        if f.attr == "update":
            x = f.value
            if isinstance(x, ast.Attribute) and x.attr == "__dict__":
                o = x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "vars" and len(x.args) == 1:
                o = x.args[0]
            else:
                return None
        elif f.attr == "__setattr__" and len(n.args) in (2, 3):
            o = f.value if len(n.args) == 2 else n.args[0]
        else:
            return None
        if not isinstance(o, ast.Name):
            return None
        b = self.ev(o, st)
        return b if b.op == "ref" and isinstance(st.heap.get(b.args[0]), Obj) else None

    def set_fields(self, b, args, kw, st, n):
        items, unknown = [], False
        if n.func.attr == "__setattr__":
            items.append((self.rd(args[-2], st), args[-1]))
        else:
            for a in args:
                c = st.heap.get(a.args[0]) if a.op == "ref" else None
                if isinstance(c, Dct) and c.base is None:
                    items.extend(c.entries)
                else:
                    unknown = True
            for k, v in kw.items():
                if k == "**":
                    unknown = True
                else:
                    items.append((const(k), v))
        for k, v in items:
            if k.op == "const" and isinstance(k.args[0], str):
                self.setattr(b, k.args[0], v, st, n)
            else:
                unknown = True
        if unknown:
            self.event("setattr", n, obj=b, field=None, value=NONE, rvalue=NONE, pc=st.pc, roots=self.roots(b, st))
        return NONE

    def method_target(self, b, attr, st, n):
        if b.op == "ref":
            c = st.heap.get(b.args[0])
            if isinstance(c, Obj):
                return self.getattr(b, attr, st, n)
            return mk("bmeth", b, attr)
        if b.op in ("glob", "super"):
            return self.getattr(b, attr, st, n)
        return mk("bmeth", b, attr)

    def apply(self, f, args, kw, st, n):
        self.cur = n
        if f.op == "ref":
            f2 = self.rd(f, st)
            c = st.heap.get(f.args[0])
            if isinstance(c, Obj):
                m = self.p.find_method(c.cls, "__call__") if c.cls else None
                if m is not None:
                    return self.call_func(m, [f] + args, kw, st, n)
            f = f2
        if f.op == "ite":
            fs = [f.args[1], f.args[2]]
            if all(x.op in ("glob", "clo", "partial", "ite", "bm") for x in fs):
                s1, s2 = st.copy(), st.copy()
                s1.pc, s2.pc = conj(st.pc, f.args[0]), conj(st.pc, neg(f.args[0]))
                a = self.apply(fs[0], args, kw, s1, n)
                b = self.apply(fs[1], args, kw, s2, n)
                m = self.merge(f.args[0], s1, s2)
                v = self.merge_val(f.args[0], a, b, m, s1, s2)
                st.heap.clear()
                st.heap.update(m.heap)
                return v
        if f.op == "partial":
            kk = dict(f.args[2])
            kk.update(kw)
            return self.apply(f.args[0], list(f.args[1]) + args, kk, st, n)
        if f.op == "clo":
            fi, outer = self.funcs[f.args[0]]
            return self.call_func(fi, args, kw, st, n, outer=outer)
        if f.op == "bm":
            fi, _ = self.funcs[f.args[1].args[0]]
            return self.call_func(fi, [f.args[0]] + args, kw, st, n)
        if f.op == "bmeth":
            return self.method_call(f.args[0], f.args[1], args, kw, st, n)
        if f.op == "glob":
            k = f.args[0]
            if k == "func":
                fi = self.find_func(f.args[1])
                if fi is not None:
                    return self.call_func(fi, args, kw, st, n)
            if k == "class":
                return self.construct(self.p.cls(f.args[1]), args, kw, st, n)
            if k in ("ext", "mod", "data"):
                return self.ext_call(f.args[1], args, kw, st, n)
        targs = tuple(self.rd(a, st) for a in args)
        tkw = tuple(sorted((k, self.rd(v, st)) for k, v in kw.items()))
        self.event("dyncall", n, fn=f, args=targs, kw=tkw, pc=st.pc)
        return mk("call", f, targs, tkw)

    def find_func(self, q):
        if not hasattr(self, "_fq"):
            self._fq = {x.qual: x for x in self.p.all_functions()}
        f = self._fq.get(q)
        if f is None:
            r = self.p.resolve_dotted(q)
            if r[0] == "func":
                f = r[1]
                self._fq[q] = f
        return f

    def bind_args(self, fi, args, kw, st, n, skip_self=False):
        """-> dict param -> value, problems"""
        names = list(fi.pos)
        bound, problems = {}, []
        rest = []
        for i, a in enumerate(args):
            if a.op == "star":
                problems.append("star")
                break
            if i < len(names):
                bound[names[i]] = a
            elif fi.vararg:
                rest.append(a)
            else:
                problems.append("too many positional arguments (%d given, %d accepted)" % (len(args), len(names)))
                break
        extra = {}
        for k, v in kw.items():
            if k == "**":
                continue
            if k in bound:
                problems.append("multiple values for argument '%s'" % k)
            elif k in names or k in fi.kwonly:
                if k in fi.posonly:
                    problems.append("positional-only argument '%s' passed as keyword" % k)
                bound[k] = v
            elif fi.kwarg:
                extra[k] = v
            else:
                problems.append("unexpected keyword argument '%s'" % k)
        missing = [x for x in names + fi.kwonly if x not in bound and x not in fi.defaults]
        if missing and "**" not in kw and not any(a.op == "star" for a in args):
            problems.append("missing argument(s) %s" % ", ".join(missing))
        return bound, rest, extra, missing, [p for p in problems if p != "star"]

    def call_func(self, fi, args, kw, st, n, outer=None):
        bound, rest, extra, missing, problems = self.bind_args(fi, args, kw, st, n)
        rb = {k: self.rd(v, st) for k, v in bound.items()}
        self.event("call", n, callee=fi.qual, bound=rb, bound_refs=dict(bound), problems=problems, pc=st.pc,
                   has_star="**" in kw or any(a.op == "star" for a in args), kwstar=self.rd(kw["**"], st) if "**" in kw else None,
                   extra=extra)
        self.calls += 1
        recursive = sum(1 for f in self.stack if f.func.qual == fi.qual) >= 2 if outer is None else sum(1 for f in self.stack if f.func is fi) >= 2
        ext = fi.mod.external
        if ext and not (fi.cls is not None and fi.name in self.inline_ext):
            return self.atom_call(fi, rb, rest, kw, st)
        if self.atoms(fi.qual) or recursive or len(self.stack) >= self.max_depth or self.calls > self.max_calls:
            if not self.atoms(fi.qual):
                self.approx.append((fi.qual, getattr(n, "lineno", 0), "not inlined"))
            return self.atom_call(fi, rb, rest, kw, st)
        if any("contextmanager" in d or "abstractmethod" in d for d in fi.decorators):
            return self.atom_call(fi, rb, rest, kw, st)
        if is_generator(fi.node):
            g = self.collecting(fi)
            if g is None:
                return self.opaque("generator", *rb.values())
            fi = g
        fr = self.new_frame(fi, None, outer)
        env = {}
        st.envs[fr.fid] = env
        for p in fi.pos + fi.kwonly:
            if p in bound:
                env[p] = self.boxed(bound[p], st, p)
            elif p in fi.defaults:
                env[p] = self.boxed(self.ev_default(fi, p, st), st, p)
            else:
                env[p] = self.opaque("arg:" + p, *( [self.rd(kw["**"], st)] if "**" in kw else []))
        if "**" in kw:
            for p in fi.pos + fi.kwonly:
                if p not in bound:
                    # may be overridden by the ** mapping
                    d = env[p]
                    env[p] = mk("kwopt", self.rd(kw["**"], st), p, self.rd(d, st))
        if fi.vararg:
            env[fi.vararg] = mk("tuple", tuple(rest)) if not any(a.op == "star" for a in args) else self.opaque("varargs")
        if fi.kwarg:
            env[fi.kwarg] = self.new(st, Dct(self.rd(kw["**"], st) if "**" in kw else None,
                                             tuple((const(k), v) for k, v in extra.items())))
        pc0 = st.pc
        loops_mark = len(self.loops)
        val, out = self.exec_func(fr, st)
        if out is None:
            # callee always raises
            st.pc = FALSE
            return mk("bottom")
        if out is not st:
            heap, envs = dict(out.heap), {k: dict(v) for k, v in out.envs.items()}
            st.heap.clear()
            st.heap.update(heap)
            for fid, e in envs.items():
                if fid in st.envs and fid != fr.fid:
                    st.envs[fid].clear()
                    st.envs[fid].update(e)
        env = (out if out is not st else st).envs.get(fr.fid)
        if env is not None and self.keeps(val, st, fr):
            st.envs[fr.fid] = dict(env)  # a function made by the callee remembers its variables
        else:
            st.envs.pop(fr.fid, None)
        st.pc = pc0
        return val

    def keeps(self, v, st, fr, depth=0):
        """does the value contain a function that was defined in the frame"""
        if v.op == "clo":
            o = self.funcs[v.args[0]][1]
            while o is not None:
                if o is fr:
                    return True
                o = o.outer
            return False
        if depth > 4:
            return False
        if v.op == "ref":
            c = st.heap.get(v.args[0])
            xs = (c.items if isinstance(c, Lst) else [x for _, x in c.entries] if isinstance(c, Dct) else
                  [c.a, c.b] if isinstance(c, Phi) else list(c.fields.values()) if isinstance(c, Obj) else ())
            return any(self.keeps(x, st, fr, depth + 1) for x in xs)
        if v.op in ("tuple", "partial", "bm", "ite", "zipit", "enumit", "mapit"):
            return any(self.keeps(x, st, fr, depth + 1) for x in children(v))
        return False

    def collecting(self, fi):
        """a generator function as the function that returns the list of what it yields; None if it may not end or receives values"""
        if not hasattr(self, "_collecting"):
            self._collecting = {}
        if id(fi.node) not in self._collecting:
            node = collected_yields(fi.node)
            g = None
            if node is not None:
                g = copy.copy(fi)
                g.node = node
            self._collecting[id(fi.node)] = (fi, g)
        return self._collecting[id(fi.node)][1]

    def ev_default(self, fi, p, st):
        node = fi.defaults[p]
        if isinstance(node, ast.Constant):
            return const(node.value)
        fr = self.new_frame(fi)
        st.envs[fr.fid] = {}
        self.stack.append(fr)
        try:
            return self.ev(node, st)
        finally:
            self.stack.pop()
            st.envs.pop(fr.fid, None)

    def atom_call(self, fi, rb, rest, kw, st):
        extra = tuple(self.rd(x, st) for x in rest)
        ks = dict(rb)
        for k, v in kw.items():
            if k not in ks:
                ks[k] = self.rd(v, st)
        # defaults passed explicitly are dropped: f(x) and f(x, p=default) are the same call
        for p in list(ks):
            d = fi.defaults.get(p)
            if isinstance(d, ast.Constant) and ks[p].op == "const" and type(ks[p].args[0]) is type(d.value) and ks[p].args[0] == d.value:
                del ks[p]
        r = mk("call", mk("glob", "func", fi.qual, fi.mod.name), extra, tuple(sorted(ks.items())))
        return self.draw(r, st) if draws_random(self.p, fi) else r

    def construct(self, c, args, kw, st, n):
        targs = tuple(self.rd(a, st) for a in args)
        self.event("construct", n, cls=c.qual, args=targs, kw={k: self.rd(v, st) for k, v in kw.items()}, pc=st.pc)
        if c.is_record:
            fields = {}
            names = [f for f, _ in c.fields]
            problems = []
            for i, a in enumerate(args):
                if i < len(names):
                    fields[names[i]] = a
                else:
                    problems.append("too many arguments for %s" % c.name)
            for k, v in kw.items():
                if k not in names:
                    problems.append("unexpected keyword argument '%s'" % k)
                fields[k] = v
            for f, d in c.fields:
                if f not in fields:
                    fields[f] = const(d.value) if isinstance(d, ast.Constant) else self.opaque("default")
            if problems:
                self.event("call", n, callee=c.qual, bound={}, problems=problems, pc=st.pc, has_star=False, kwstar=None, bound_refs={}, extra={})
            fields = {f: self.boxed(fields[f], st) for f in names}
            return self.new(st, Obj(c, fields, True, None))
        init = self.p.find_method(c, "__init__")
        r = self.new(st, Obj(c, {}, False, None))
        if init is None:
            return r
        if init.mod.external or c.mod.external:
            if not init.mod.external or True:
                bound, rest, extra, missing, problems = self.bind_args(init, [r] + args, kw, st, n)
                self.event("call", n, callee=init.qual, bound={k: self.rd(v, st) for k, v in bound.items()}, problems=problems, pc=st.pc,
                           has_star="**" in kw or any(a.op == "star" for a in args), kwstar=None, bound_refs=bound, extra=extra)
            if c.mod.external:
                return mk("call", mk("glob", "class", c.qual), targs, tuple(sorted((k, self.rd(v, st)) for k, v in kw.items())))
        self.call_func(init, [r] + args, kw, st, n)
        return r

    # --- externals
    def ext_call(self, q, args, kw, st, n):
        if q == "numpy.stack" and len(args) == 1 and set(kw) <= {"axis"} and num(self.rd(kw.get("axis", const(0)), st)) == 0:
            q, kw = "numpy.array", {}
        targs = tuple(self.rd(a, st) for a in args)
        tkw = tuple(sorted((k, self.rd(v, st)) for k, v in kw.items()))
        self.event("ext", n, q=q, args=targs, kw=dict(tkw), pc=st.pc, refs=tuple(args), kwrefs=dict(kw))
        g = mk("glob", "ext", q)
        if q == "builtins.range":
            a = list(targs)
            if len(a) == 1:
                a = [const(0), a[0], const(1)]
            elif len(a) == 2:
                a = a + [const(1)]
            if len(a) == 3:
                return mk("range", *a)
        if q == "builtins.enumerate" and args:
            s = kw.get("start", args[1] if len(args) > 1 else const(0))
            return mk("enumit", args[0], self.rd(s, st))
        if q == "builtins.zip" and not any(a.op == "star" for a in args):
            return mk("zipit", tuple(args))
        if q == "builtins.map" and len(args) >= 2:
            return self.force_map(args[0], args[1:], st, n)
        if q in ("builtins.max", "builtins.min") and len(args) == 1 and set(kw) <= {"key"}:
            lit = self.literal_items(args[0], st) if args[0].op != "tuple" else list(args[0].args[0])
            if lit is not None and len(lit) > 1:
                return self.ext_call(q, list(lit), kw, st, n)
        if q in ("functools.reduce", "six.moves.reduce") and len(args) in (2, 3) and not kw:
            lit = self.literal_items(args[1], st) if args[1].op != "tuple" else list(args[1].args[0])
            if lit is not None and len(lit) <= 12 and (lit or len(args) == 3):
                acc = args[2] if len(args) == 3 else lit.pop(0)
                for x in lit:
                    acc = self.apply(args[0], [acc, x], {}, st, n)
                return acc
        if q in OPERATORS and len(args) == 2 and not kw and not any(self.kindof(a, st) == "list" for a in args if a.op == "ref"):
            return self.binop(OPERATORS[q], *targs)
        if q == "itertools.starmap" and len(args) == 2 and not kw:
            z = args[1]
            if z.op == "zipit":
                return self.force_map(args[0], list(z.args[0]), st, n)
        if q == "itertools.chain" and args and not kw:
            lits = [self.literal_items(a, st) if a.op != "tuple" else list(a.args[0]) for a in args]
            if all(x is not None for x in lits):
                return mk("tuple", tuple(x for l in lits for x in l))
        if q in ("builtins.list", "builtins.tuple") and len(args) == 1:
            a = args[0]
            if a.op in ("map", "filt"):
                return a
            if a.op == "tuple":
                return self.new(st, Lst(None, a.args[0])) if q == "builtins.list" else a
            lit = self.literal_items(a, st)
            if lit is not None:
                return self.new(st, Lst(None, tuple(lit))) if q == "builtins.list" else mk("tuple", tuple(lit))
            if a.op in ("zipit", "enumit", "mapit"):
                ix, e = self.iter_elem(a, st, n)
                return mk("map", ix, self.rd(e, st))
        if q in ("builtins.list", "builtins.dict", "builtins.set") and not args and not kw:
            return self.new(st, Lst(None, ())) if q == "builtins.list" else (
                self.new(st, Dct(None, ())) if q == "builtins.dict" else mk("call", g, (), ()))
        if q == "builtins.dict" and not args and "**" not in kw:
            return self.new(st, Dct(None, tuple((const(k), self.boxed(v, st)) for k, v in kw.items())))
        if q in ("builtins.sum", "numpy.sum") and args and (q == "builtins.sum" or targs[0].op in ("map", "tuple", "list")) and not (
                q == "numpy.sum" and tkw):
            t = targs[0]
            if args[0].op in ("zipit", "enumit", "mapit"):
                ix, e = self.iter_elem(args[0], st, n)
                t = mk("map", ix, self.rd(e, st))
            start = targs[1] if len(targs) > 1 and q == "builtins.sum" else dict(tkw).get("start", const(0))
            if t.op == "map":
                r = mk("rsum", t.args[0], t.args[1])
                return r if is_const(start, 0) else self.binop("+", start, r)
            items = t.args[0] if t.op == "tuple" else (t.args[1] if t.op == "list" and is_const(t.args[0], None) else None)
            if items is not None:
                acc = start
                for x in items:
                    acc = self.binop("+", acc, x) if not is_const(acc, 0) else x
                return acc
        if q == "builtins.len" and len(targs) == 1:
            return self.mk_len(targs[0])
        if q == "functools.partial" and args:
            return mk("partial", self.rd(args[0], st), tuple(args[1:]), tuple(sorted(kw.items())))
        if q == "builtins.getattr" and len(args) >= 2 and is_const(targs[1]) and isinstance(targs[1].args[0], str):
            v = self.getattr(args[0], targs[1].args[0], st, n)
            return v
        if q == "builtins.setattr" and len(args) == 3:
            if is_const(targs[1]) and isinstance(targs[1].args[0], str):
                self.setattr(args[0], targs[1].args[0], args[2], st, n)
            else:
                self.event("setattr", n, obj=args[0], field=None, value=args[2], rvalue=targs[2], pc=st.pc, roots=self.roots(args[0], st))
            return NONE
        if q == "builtins.isinstance" and len(args) == 2:
            return mk("call", g, targs, tkw)
        if q in ("copy.deepcopy", "copy.copy", "numpy.copy", "numpy.array", "numpy.ascontiguousarray") and q in ("copy.deepcopy", "copy.copy", "numpy.copy") and args:
            return mk("copy", targs[0])
        if q == "numpy.array" and targs and not (is_const(dict(tkw).get("copy", TRUE), False)):
            t = targs[0]
            if t.op == "map" and set(dict(tkw)) <= {"dtype"}:
                return mk("stack", t.args[0], t.args[1])
        if q in MUT_ARG0 and args:
            v = targs[1] if len(targs) > 1 else NONE
            if args[0].op != "ref" and n.args and isinstance(n.args[0], ast.Attribute) and n.args[0].attr == "values":
                args = [self.ev(n.args[0].value, st)] + list(args[1:])
            if q == "numpy.fill_diagonal":
                self.write_cell(args[0], v, st, n, mode="ext:" + q, idx=mk("diagix"))
            elif q == "numpy.copyto":
                self.write_cell(args[0], v, st, n, mode="ext:" + q)
            else:
                self.write_cell(args[0], self.opaque(q, *targs), st, n, mode="ext:" + q)
            return NONE
        if any(k.startswith("overwrite_") and is_const(v, True) for k, v in tkw) and args:
            self.event("store", n, roots=self.roots(args[0], st), mode="overwrite", target=args[0], pc=st.pc, idx=None, value=NONE)
        if q == "numpy.nan_to_num" and is_const(dict(tkw).get("copy", TRUE), False) and args:
            t = mk("call", g, targs, tuple((k, v) for k, v in tkw if k != "copy"))
            self.write_cell(args[0], t, st, n, mode="copy=False")
            return args[0]
        if "out" in kw and q.startswith("numpy."):
            o = kw["out"]
            r = mk("call", g, targs, tuple((k, v) for k, v in tkw if k != "out"))
            r = self.ufunc(q, r, targs)
            outs = o.args[0] if o.op == "tuple" else (o,)
            for x in outs:
                if x.op == "ref":
                    self.write_cell(x, r, st, n, mode="out=")
            return o
        if q in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide", "numpy.true_divide", "numpy.power", "numpy.negative") and not tkw:
            return self.ufunc(q, None, targs)
        if q in MAYBE_ALIAS and args:
            t = mk("call", g, targs, tkw)
            cp = dict(tkw).get("copy")
            if args[0].op == "ref" and not (cp is not None and is_const(cp, True)):
                return self.new(st, View(args[0].args[0], "same", None, True, t))
            return t
        if q in CHECK_XY and len(args) >= 2:
            t = mk("call", g, targs, tkw)
            cp = dict(tkw).get("copy")
            out = []
            for i in (0, 1):
                ti = mk("idx", t, const(i))
                if args[i].op == "ref" and not (cp is not None and is_const(cp, True)):
                    out.append(self.new(st, View(args[i].args[0], "same", None, True, ti)))
                else:
                    out.append(ti)
            return mk("tuple", tuple(out))
        if q in VIEW_FUNCS and args:
            self.axes_event(q.split(".")[-1], targs[0], targs[1:], dict(tkw), n)
        if q in VIEW_FUNCS and args and args[0].op == "ref":
            how = self.axes_how(q.split(".")[-1], targs[1:], dict(tkw))
            if how == "expand":
                return self.new(st, View(args[0].args[0], "idx", expand_index(targs[1:], dict(tkw)), False, None))
            if how:
                return self.new(st, View(args[0].args[0], how, None, False, None))
            t = mk("call", g, targs, tkw)
            return self.new(st, View(args[0].args[0], "other", self.rd(args[0], st), False, t))
        if q in VIEW_FUNCS and args:
            how = self.axes_how(q.split(".")[-1], targs[1:], dict(tkw))
            if how == "tr":
                return mk("tr", targs[0])
            if how == "diag":
                return mk("diag", targs[0])
            if how == "expand":
                return mk("idx", targs[0], expand_index(targs[1:], dict(tkw)))
        if q == "numpy.einsum" and len(args) == 2 and is_const(targs[0]) and isinstance(targs[0].args[0], str):
            if targs[0].args[0].replace(" ", "") in ("...jj->...j", "...ii->...i", "ii->i", "tii->ti"):
                if args[1].op == "ref":
                    return self.new(st, View(args[1].args[0], "diag", None, False, None))
                return mk("diag", targs[1])
        # callables handed to external code may be called there
        if q == "builtins.print":
            return NONE
        targs, tkw = self.lam_args(args, kw, targs, tkw, st, n, q)
        r = mk("call", g, targs, tkw)
        if q.startswith(("numpy.random.", "random.")) and q.split(".")[-1] in RANDOM or q.endswith(".rvs"):
            return self.draw(r, st)
        return r

    def lam_args(self, args, kw, targs, tkw, st, n, q):
        """closures handed to external code become lambda terms (their effects are recorded)"""
        def one(a, t):
            if a.op in ("clo", "partial", "bm"):
                r = self.probe(a, st, n, q)
                return t if r is None else r
            return t
        targs = tuple(one(a, t) for a, t in zip(args, targs))
        tkw = tuple((k, one(kw[k], t)) if k in kw else (k, t) for k, t in tkw)
        return targs, tkw

    def probe(self, f, st, n, q):
        """Evaluate a callback once with unknown arguments, for its effects."""
        base = f
        while base.op == "partial":
            base = base.args[0]
        if base.op == "clo":
            fi, outer = self.funcs[base.args[0]]
        elif base.op == "bm":
            fi, outer = self.funcs[base.args[1].args[0]]
        else:
            return
        given = 0
        g = f
        names = set()
        while g.op == "partial":
            given += len(g.args[1])
            names |= {k for k, _ in g.args[2]}
            g = g.args[0]
        if base.op == "bm":
            given += 1
        need = [p for p in fi.pos[given:] if p not in names and p not in fi.defaults]
        if any(fr.func is fi for fr in self.stack):
            return
        s = st.copy()
        d = self.lamdepth
        self.lamdepth += 1
        try:
            vs = [mk("bound", d, i) for i in range(len(need))]
            v = self.apply(f, [self.new(s, Arr(x, "unk", None, None)) for x in vs], {}, s, n)
            t = self.rd(v, s)
            if self.lamdepth < 4 and any(x.op == "clo" for x in walk(t)):
                t = self.close(t, s)  # functions made by the function
            return mk("lam", len(need), t)
        finally:
            self.lamdepth -= 1

    def close(self, t, st):
        """t with every closure replaced by the lambda term of its body (in the state st)"""
        if st is not None:
            refs = {x.n: self.rd(x, st) for x in walk(t) if x.op == "ref" and x.args[0] in st.heap}
            if refs:
                t = subst(t, refs)
        todo = [x for x in walk(t) if x.op == "clo"]
        if not todo or st is None:
            return t
        m = {}
        self.rec += 1
        saved, self.stack = self.stack, [self.new_frame(next(iter(self.frames.values())).func)] if not self.stack else self.stack
        try:
            for x in todo:
                fi, outer = self.funcs[x.args[0]]
                r = None
                if self.lamdepth < 4:
                    try:
                        r = self.probe(x, st.copy(), fi.node, "close")
                    except Limit:
                        r = None
                r = mk("cloq", x.args[1]) if r is None else r
                self.lamdepth += 1
                try:
                    r = self.close(r, st) if self.lamdepth < 4 else r
                finally:
                    self.lamdepth -= 1
                m[x.n] = r
        finally:
            self.rec -= 1
            self.stack = saved
        return subst(t, m)

    def ufunc(self, q, r, targs):
        op = {"numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*", "numpy.divide": "/",
              "numpy.true_divide": "/", "numpy.power": "**"}.get(q)
        if op and len(targs) >= 2:
            return self.binop(op, targs[0], targs[1])
        if q == "numpy.negative" and targs:
            return mk("un", "-", targs[0])
        return r if r is not None else mk("call", mk("glob", "ext", q), targs, ())

    def axes_event(self, name, t, rest, kw, n):
        how = self.axes_how(name, rest, kw)
        vals = [num(x) for x in rest]
        if name == "swapaxes" and set(vals) == {0, 1}:
            self.event("axes", n, how="tr", style="first", operand=t)
        elif how == "tr":
            self.event("axes", n, how="tr", style="last" if rest and vals != [1, 0] or "axes" in kw else "all", operand=t)
        elif how == "diag":
            self.event("axes", n, how="diag", style="last" if kw else "first", operand=t)

    def axes_how(self, name, rest, kw):
        vals = [num(x) for x in rest]
        if name == "swapaxes" and len(vals) == 2 and set(vals) in ({-1, -2}, {1, 2}):
            return "tr"
        if name in ("transpose",):
            ax = rest
            if len(ax) == 1 and ax[0].op == "tuple":
                ax = ax[0].args[0]
            elif not ax and "axes" in kw and kw["axes"].op == "tuple":
                ax = kw["axes"].args[0]
            v = [num(x) for x in ax]
            if v in ([0, 2, 1], [1, 0]) or not v:
                return "tr"
            return None
        if name == "diagonal":
            ks = {k: num(v) for k, v in kw.items()}
            if ks in ({"axis1": -2, "axis2": -1}, {"axis1": -1, "axis2": -2}) or (not ks and not rest):
                return "diag"
            return None
        if name == "expand_dims":
            return "expand" if expand_index(rest, kw) is not None else None
        return None

    def force_map(self, fn, seqs, st, n):
        if len(seqs) == 1:
            lit = self.literal_items(seqs[0], st)
            if lit is not None and len(lit) <= 8:
                return mk("tuple", tuple(self.boxed(self.apply(fn, [x], {}, st, n), st) for x in lit))
            ix, e = self.iter_elem(seqs[0], st, n)
            es = [e]
        else:
            z = mk("zipit", tuple(seqs))
            lit = self.literal_items(z, st)
            if lit is not None and len(lit) <= 8:
                return mk("tuple", tuple(self.boxed(self.apply(fn, list(x.args[0]), {}, st, n), st) for x in lit))
            ix, e = self.iter_elem(z, st, n)
            es = list(e.args[0])
        self.active_ix.append(ix)
        try:
            r = self.apply(fn, es, {}, st, n)
        finally:
            self.active_ix.pop()
        return mk("map", ix, self.rd(r, st))

    # --- methods on values
    def method_call(self, b, attr, args, kw, st, n):
        t = self.rd(b, st)
        targs = tuple(self.rd(a, st) for a in args)
        tkw = tuple(sorted((k, self.rd(v, st)) for k, v in kw.items()))
        c = st.heap.get(b.args[0]) if b.op == "ref" else None
        self.event("method", n, recv=t, recv_ref=b, attr=attr, args=targs, kw=dict(tkw), pc=st.pc, refs=tuple(args))
        if t.op == "glob" and t.args[0] == "data" and attr in LIST_MUT | ARR_MUT:
            self.event("globmut", n, target=t, mode="." + attr, pc=st.pc)
        if attr == "shuffle" and args and args[0].op == "ref":
            self.write_cell(args[0], self.opaque("shuffle", t, targs[0]), st, n, mode="shuffle")
            return NONE
        if isinstance(c, (Lst, Alt)):
            if attr in LIST_MUT:
                self.event("store", n, roots=self.roots(b, st), mode="list." + attr, target=b, pc=st.pc, idx=None, value=targs[0] if targs else NONE)
                if attr == "append" and args:
                    x = args[0]
                    if self.within(x, b.args[0], st):
                        x = targs[0]
                    self.lst_append(b.args[0], self.boxed(x, st), st)
                    return NONE
                if attr == "extend" and args:
                    lit = self.literal_items(args[0], st)
                    if lit is not None:
                        for x in lit:
                            self.lst_append(b.args[0], self.boxed(x, st), st)
                        return NONE
                if attr == "pop" and not args and isinstance(c, Lst) and c.items:
                    st.heap[b.args[0]] = Lst(c.base, c.items[:-1])
                    return c.items[-1]
                st.heap[b.args[0]] = Lst(self.opaque("list." + attr, t, *targs), ())
                return self.opaque("list." + attr, t)
            if attr == "copy":
                return self.new(st, c)
        if isinstance(c, Dct):
            if attr == "get" and targs:
                for k, x in c.entries:
                    if k is targs[0]:
                        return x
                if c.base is None and targs[0].op == "const" and all(k.op == "const" for k, _ in c.entries):
                    return args[1] if len(args) > 1 else NONE
                if c.base is None and all(k.op == "const" for k, _ in c.entries):
                    acc = args[1] if len(args) > 1 else NONE
                    for k, x in reversed(c.entries):
                        cond = fold_cmp(mk("cmp", "==", targs[0], k))
                        acc = self.phi_val(cond, x, acc, st)
                    return acc
            if attr in ("items", "keys", "values"):
                if c.base is None and all(k.op == "const" for k, _ in c.entries) and len(c.entries) <= 12:
                    if attr == "items":
                        return mk("tuple", tuple(mk("tuple", (k, x)) for k, x in c.entries))
                    return mk("tuple", tuple((k if attr == "keys" else x) for k, x in c.entries))
                return mk("itemsit", b, attr)
            if attr == "update" and (kw or (args and args[0].op == "ref" and isinstance(st.heap.get(args[0].args[0]), Dct))):
                self.event("store", n, roots=self.roots(b, st), mode="dict.update", target=b, pc=st.pc, idx=None, value=NONE)
                d = c
                if args:
                    o = st.heap[args[0].args[0]]
                    for k, x in o.entries:
                        d = self.dct_set(d, k, x)
                for k, x in kw.items():
                    d = self.dct_set(d, const(k), self.boxed(x, st))
                st.heap[b.args[0]] = d
                return NONE
            if attr in LIST_MUT:
                self.event("store", n, roots=self.roots(b, st), mode="dict." + attr, target=b, pc=st.pc, idx=None, value=NONE)
                st.heap[b.args[0]] = Dct(self.opaque("dict." + attr, t), ())
                return self.opaque("dict." + attr, t)
            if attr == "copy":
                return self.new(st, c)
        if t.op == "const" and isinstance(t.args[0], str):
            try:
                if attr in ("lower", "upper", "strip") and not args:
                    return const(getattr(t.args[0], attr)())
            except Exception:
                pass
            return mk("call", mk("attr", t, attr), targs, tkw)
        if attr in ("copy", "__copy__", "__deepcopy__") and not args:
            return mk("copy", t)
        if attr == "astype":
            cp = dict(tkw).get("copy")
            r = mk("call", mk("attr", t, attr), targs, tuple((k, v) for k, v in tkw if k != "copy"))
            if cp is not None and is_const(cp, False) and b.op == "ref":
                return self.new(st, View(b.args[0], "same", None, True, r))
            return r
        if attr in ("transpose", "swapaxes", "diagonal"):
            self.axes_event(attr, t, targs, dict(tkw), n)
            how = self.axes_how(attr, targs, dict(tkw))
            if how:
                if b.op == "ref":
                    return self.new(st, View(b.args[0], how, None, False, None))
                return mk(how, t)
        if attr in ("ravel", "reshape", "squeeze", "view", "transpose", "swapaxes", "diagonal") and b.op == "ref":
            return self.new(st, View(b.args[0], "other", t, False, mk("call", mk("attr", t, attr), targs, tkw)))
        if attr in ARR_MUT and b.op == "ref" and isinstance(c, (Arr, View, Phi)):
            self.write_cell(b, targs[0] if attr == "fill" and targs else self.opaque("arr." + attr, t, *targs), st, n, mode="meth." + attr)
            return NONE
        if attr == "append" and len(targs) == 1 and isinstance(c, View) and c.how == "elem":
            self.write_cell(b, mk("concat", t, mk("list", NONE, targs)), st, n, mode="meth?.append")
            return NONE
        if attr in LIST_MUT and b.op == "ref" and isinstance(c, (Arr, View, Phi)):
            self.write_cell(b, self.opaque("meth." + attr, t, *targs), st, n, mode="meth?." + attr)
            return self.opaque("meth." + attr, t, *targs)
        if attr == "__setitem__" and len(args) == 2:
            self.write_cell(b, targs[1], st, n, mode="setitem", idx=targs[0])
            return NONE
        if attr == "dot" and len(targs) == 1:
            return mk("bin", "@", t, targs[0])
        if attr in ("sum", "mean", "max", "min", "any", "all", "std", "var", "trace", "prod"):
            return mk("call", mk("glob", "ext", "numpy." + attr), (t,) + targs, tkw)
        if t.op == "ite" or t.op == "mu" or t.op == "param" or t.op == "self0":
            pass
        targs, tkw = self.lam_args(args, kw, targs, tkw, st, n, "." + attr)
        r = mk("call", mk("attr", t, attr), targs, tkw)
        if attr in ("fit", "fit_transform", "fit_predict", "set_params", "partial_fit") and b.op == "ref":
            self.event("fitcall", n, recv=t, recv_ref=b, roots=self.roots(b, st), args=targs, pc=st.pc)
            if isinstance(c, Arr):
                # the object is changed, and returned
                name = attr if attr in ("set_params", "partial_fit") else "fit"
                st.heap[b.args[0]] = c._replace(t=mk("call", mk("attr", t, name), targs, tkw))
                if name == attr:
                    return b
        if attr in RANDOM:
            return self.draw(r, st)
        return r

    def phi_val(self, c, a, b, st):
        if c.op == "const":
            return a if c.args[0] else b
        if a is b:
            return a
        if a.op == "ref" or b.op == "ref":
            return self.new(st, Phi(c, a, b))
        return ite(c, a, b)

    def lst_append(self, oid, v, st):
        def app(c):
            if isinstance(c, Alt):
                return Alt(c.c, app(c.a), app(c.b))
            return Lst(c.base, c.items + (v,))
        st.heap[oid] = app(st.heap[oid])


_assigned = {}


_elems = {}


_handed = {}


def hands_elements(node):
    """names of the functions that are called with an element of a container"""
    k = id(node)
    if k not in _handed:
        elem, out = set(), set()
        for x in ast.walk(node):
            if isinstance(x, ast.For):
                elem |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Subscript):
                elem |= {y.id for y in x.targets if isinstance(y, ast.Name)}
        for x in ast.walk(node):
            if isinstance(x, ast.Call):
                name = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else None
                if name and any(isinstance(a, ast.Subscript) or isinstance(a, ast.Name) and a.id in elem for a in list(x.args) + [y.value for y in x.keywords]):
                    out.add(name)
        _handed[k] = (node, out)
    return _handed[k][1]


def mutated_names(node):
    """names whose object is changed in place, themselves or under another name"""
    mut, same = set(), []
    for x in ast.walk(node):
        tg = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else []
        for t in tg:
            for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(y, ast.Subscript):
                    v = y.value
                    while isinstance(v, (ast.Subscript, ast.Attribute)):
                        v = v.value
                    if isinstance(v, ast.Name):
                        mut.add(v.id)
                elif isinstance(y, ast.Name):
                    if isinstance(x, ast.AugAssign):
                        mut.add(y.id)
                    elif isinstance(x.value, ast.Name):
                        same.append((y.id, x.value.id))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            if x.func.attr in LIST_MUT | ARR_MUT and isinstance(x.func.value, ast.Name):
                mut.add(x.func.value.id)
            if x.func.attr in ("fill_diagonal", "put", "place", "copyto") and x.args and isinstance(x.args[0], ast.Name):
                mut.add(x.args[0].id)
    for _ in same:
        for a, b in same:
            if a in mut:
                mut.add(b)
    return mut


def writes_elements(node):
    k = id(node)
    if k not in _elems:
        elem, mut, sub = set(), set(), False
        for x in ast.walk(node):
            if isinstance(x, ast.For):
                elem |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
            tg = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else []
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Subscript):
                elem |= {y.id for y in x.targets if isinstance(y, ast.Name)}
            for t in tg:
                for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(y, ast.Subscript):
                        v = y.value
                        if isinstance(v, ast.Name):
                            mut.add(v.id)
                        elif isinstance(v, ast.Subscript):
                            sub = True
                    elif isinstance(y, ast.Name) and isinstance(x, ast.AugAssign):
                        mut.add(y.id)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in LIST_MUT | ARR_MUT:
                if isinstance(x.func.value, ast.Name):
                    mut.add(x.func.value.id)
                elif isinstance(x.func.value, ast.Subscript):
                    sub = True
        _elems[k] = (node, sub or bool(elem & mut))
    return _elems[k][1]


def assigned_names(node):
    k = id(node)
    if k not in _assigned:
        s = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                s.add(x.id)
        _assigned[k] = (node, s)
    return _assigned[k][1]


def collected_yields(node):
    node = copy.deepcopy(node)
    name = "yielded"
    bad = []

    class V(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return n
        visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Expr(self, n):
            v = n.value
            if isinstance(v, ast.Yield) or isinstance(v, ast.YieldFrom):
                x = (v.value or ast.Constant(None))
                f = ast.Attribute(ast.Name(name, ast.Load()), "append" if isinstance(v, ast.Yield) else "extend", ast.Load())
                return ast.fix_missing_locations(ast.copy_location(ast.Expr(ast.Call(f, [self.visit(x)], [])), n))
            return self.generic_visit(n)

        def visit_Yield(self, n):
            bad.append(n)
            return n
        visit_YieldFrom = visit_Yield

        def visit_Return(self, n):
            if n.value is not None:
                bad.append(n)
            return ast.copy_location(ast.Return(ast.copy_location(ast.Name(name, ast.Load()), n)), n)

        def visit_While(self, n):
            if isinstance(n.test, ast.Constant) and n.test.value and not any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(n)):
                bad.append(n)
            return self.generic_visit(n)

    body = [V().visit(x) for x in node.body]
    if bad:
        return None
    first = ast.copy_location(ast.Assign([ast.Name(name, ast.Store())], ast.List([], ast.Load())), node.body[0])
    last = ast.copy_location(ast.Return(ast.Name(name, ast.Load())), node.body[-1])
    node.body = [first] + body + [last]
    return ast.fix_missing_locations(node)


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False


class Result:
    def __init__(self, interp, func, val, st, selfref, frame):
        self.i, self.func, self.val, self.st, self.selfref, self.frame = interp, func, val, st, selfref, frame
        self.events, self.loops = interp.events, interp.loops

    def close(self, t):
        return self.i.close(t, self.st)

    def term(self):
        return self.close(self.i.rd(self.val, self.st)) if self.st is not None else mk("bottom")

    def field(self, name):
        c = self.st.heap[self.selfref.args[0]]
        v = c.fields.get(name)
        return None if v is None else self.i.rd(v, self.st)

    def params(self):
        """final contents of the arguments that were modified in place"""
        out = {}
        for n, (ref, t) in self.i.param_refs.items():
            if ref.op == "ref" and self.st is not None:
                v = self.i.rd(ref, self.st)
                modes = {e["mode"] for e in self.events if e["kind"] == "store" and e["target"] is ref}
                if modes == {"aug?"} and t.args[0] == "unk":
                    continue  # x op= y where x may be a number: no object of the caller is known to change
                if v is not t:
                    out[n] = (self.close(v), t)
        return out

    def fields(self):
        c = self.st.heap[self.selfref.args[0]]
        return {k: self.close(self.i.rd(v, self.st)) for k, v in c.fields.items()}

    def loop(self, uid):
        for l in self.loops:
            if l.uid == uid:
                return l
