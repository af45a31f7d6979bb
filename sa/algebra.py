"""Canonical forms: pointwise rational normal form over atoms (see terms.py)."""
import math
from fractions import Fraction

from .terms import *
from .terms import mk, const

SQ = {"sklearn.utils.extmath.squared_norm"}
ALIAS = {
    "numpy.absolute": "numpy.abs", "builtins.abs": "numpy.abs", "numpy.fabs": "numpy.abs", "math.fabs": "numpy.abs",
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "math.log": "numpy.log", "math.exp": "numpy.exp",
    "numpy.dot": "@", "numpy.matmul": "@", "numpy.true_divide": "numpy.divide", "math.sqrt": "numpy.sqrt",
    "scipy.linalg.norm": "numpy.linalg.norm", "numpy.linalg.linalg.norm": "numpy.linalg.norm",
    "math.log1p": "numpy.log1p", "numpy.identity": "numpy.eye", "numpy.logical_not": "~", "numpy.invert": "~",
    "numpy.logical_and": "&", "numpy.bitwise_and": "&", "numpy.logical_or": "|", "numpy.bitwise_or": "|",
    "scipy.linalg.eigh": "numpy.linalg.eigh", "numpy.linalg.multi_dot": "@@", "numpy.row_stack": "numpy.vstack",
    "numpy.nonzero": "numpy.where", "scipy.linalg.inv": "numpy.linalg.inv", "scipy.linalg.pinvh": "scipy.linalg.pinvh", "builtins.pow": "numpy.power",
}
SIG = {
    "numpy.sum": ("a", "axis"), "numpy.mean": ("a", "axis"), "numpy.max": ("a", "axis"), "numpy.min": ("a", "axis"),
    "numpy.prod": ("a", "axis"), "numpy.any": ("a", "axis"), "numpy.all": ("a", "axis"), "numpy.std": ("a", "axis"),
    "numpy.var": ("a", "axis"), "numpy.linalg.norm": ("x", "ord", "axis", "keepdims"), "numpy.trace": ("a", "offset", "axis1", "axis2"),
    "numpy.diagonal": ("a", "offset", "axis1", "axis2"), "numpy.argmax": ("a", "axis"), "numpy.argmin": ("a", "axis"),
    "numpy.argsort": ("a", "axis"), "numpy.sort": ("a", "axis"), "numpy.cumsum": ("a", "axis"), "numpy.triu": ("m", "k"),
    "numpy.tril": ("m", "k"), "numpy.diag": ("v", "k"), "numpy.unique": ("ar", "return_index", "return_inverse", "return_counts"),
    "numpy.concatenate": ("a", "axis"), "numpy.full": ("shape", "fill_value"), "numpy.full_like": ("a", "fill_value"),
    "numpy.clip": ("a", "a_min", "a_max"),
}
KWDEF = {"axis": None, "keepdims": False, "ord": None, "offset": 0, "k": 0, "dtype": None, "out": None, "where": True}
KWDEF2 = {("numpy.concatenate", "axis"): 0, ("numpy.argmax", "axis"): None, ("numpy.stack", "axis"): 0}
KWDEF2.update({("numpy." + f, "axis"): d for d, fs in ((-1, "sort argsort partition argpartition diff trapz cross"), (0, "split array_split")) for f in fs.split()})
KWDEF2.update({("bottleneck." + f, "axis"): -1 for f in ("partition", "argpartition")})
KWDEF2.update({("scipy.stats." + f, "axis"): 0 for f in ("zscore", "mode", "sem", "skew", "kurtosis")})
BOOL_OPS = ("cmp", "not", "and", "or")


def head(f):
    if f.op == "glob" and (f.args[0] in ("ext", "mod") or (f.args[0] == "func" and not f.args[1].startswith("regain."))):
        return ALIAS.get(f.args[1], f.args[1])
    return None


def other_length(shape, val):
    """the matrices of an array of this shape are not square, or have the length of another axis of the values of their diagonals than the last"""
    xs = shape.args[0] if shape.op in ("tuple", "startuple") else ()
    if len(xs) < 2:
        return False
    a, b = canon(xs[-2]), canon(xs[-1])
    v = canon(val)

    def axis(x):
        if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and x.args[0].args[0] is v:
            return num(x.args[1])
        return None
    i, j = axis(a), axis(b)
    return isinstance(i, int) and i < -1 or isinstance(j, int) and j < -1


def norm_call(t):
    """(head, positional, keywords) with aliases resolved and positional/keyword spelling unified"""
    f, args, kw = t.args
    h = head(f)
    k = dict(kw)
    if h in SIG and "**" not in k and not any(a.op == "star" for a in args):
        names = SIG[h]
        pos = []
        for i, a in enumerate(args):
            if i == 0:
                pos.append(a)
            elif i < len(names):
                k[names[i]] = a
            else:
                pos.append(a)
        if not pos and names[0] in k:
            pos = [k.pop(names[0])]
        args = tuple(pos)
    if h is not None:
        for n in list(k):
            d = KWDEF2.get((h, n), KWDEF.get(n, "?") if n != "axis" or h.startswith(("numpy.", "scipy.special.", "regain.")) else "?")
            if d != "?" and is_const(k[n], d):
                del k[n]
    return h, tuple(args), k
_memo = {}


def clear():
    _memo.clear()


def g(q):
    return mk("glob", "ext", q)


def isg(t, *names):
    return t.op == "glob" and t.args[1] in names


def canon(t):
    r = _memo.get(t.n)
    if r is None:
        _memo[t.n] = t  # cycle guard
        r = _canon(t)
        _memo[t.n] = r
        _memo.setdefault(r.n, r)
    return r


def _canon(t):
    try:
        if not arith(t):
            return atom(t)
        r = to_rat(t)
        if any(by_n(k).op == "sqrt" and abs(e) > 1 for p in (r.n, r.d) for m in p for k, e in m):
            r = collapse(r)
        return from_rat(r)
    except Overflow:
        return rebuild(t, canon)


def arith(t):
    if t.op == "bin":
        return t.args[0] in ("+", "-", "*", "/", "@") or (t.args[0] == "**" and isinstance(num(t.args[2]), (int, float)))
    if t.op == "un":
        return t.args[0] == "-"
    if t.op == "const":
        return num(t) is not None
    if t.op == "copy":
        return True
    if t.op == "upd":
        return True
    if t.op in ("tr", "idx", "emb", "rsum", "bx", "diag"):
        return True
    if t.op == "ix":
        return is_const(t.args[2], 1) and not is_const(t.args[0], 0)
    if t.op == "call":
        h = head(t.args[0])
        return h in ARITH_HEADS or h in SQ or (t.args[0].op == "attr" and t.args[0].args[1] in ("astype", "abs", "conj"))
    if t.op in BOOL_OPS:
        return False
    return t.op in CANON_OPS


ARITH_HEADS = {"numpy.sqrt", "numpy.square", "numpy.linalg.norm", "numpy.sum", "numpy.power", "numpy.abs",
               "numpy.maximum", "numpy.minimum", "builtins.max", "builtins.min", "numpy.clip", "numpy.where", "@", "@@",
               "numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "builtins.float", "numpy.float64",
               "builtins.sum", "numpy.count_nonzero", "numpy.trace", "numpy.mean", "numpy.sign", "numpy.negative", "numpy.reciprocal",
               "numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide", "numpy.transpose", "numpy.vdot", "numpy.inner"}


def frac(x):
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return None
        return Fraction(str(x)) if abs(x) > 1e-300 else Fraction(0)
    return Fraction(x)


def binder(ix):
    """the index set {lo..hi-1} as {0..hi-lo-1}; occurrences of the index become lo + index"""
    if ix.op == "ix" and is_const(ix.args[2], 1):
        lo = canon(ix.args[0])
        return mk("ix", const(0), canon(mk("bin", "-", ix.args[1], lo)), ix.args[2], ix.args[3])
    return canon(ix)


def to_rat(t):
    o = t.op
    if o == "ix" and is_const(t.args[2], 1):
        r = rat_atom(binder(t))
        return r if is_const(t.args[0], 0) else r.add(to_rat(t.args[0]))
    if o == "const":
        n = num(t)
        if n is not None:
            f = frac(n)
            if f is not None:
                return rat_const(f)
        return rat_atom(t)
    if o == "copy":
        return to_rat(t.args[0])
    if o == "un" and t.args[0] == "-":
        return rat_const(-1).mul(to_rat(t.args[1]))
    if o == "bin":
        op, a, b = t.args
        if op == "@":
            return mm_rat((a, b))
        if op == "+" and (listy(a) or listy(b)):
            return rat_atom(concat(canon(a), canon(b)))
        if op in ("+", "-"):
            return to_rat(a).add(to_rat(b), 1 if op == "+" else -1)
        if op == "*":
            ra, rb = to_rat(a), to_rat(b)
            for x, y in ((ra, rb), (rb, ra)):
                if len(x.n) == 1 and x.d == p_const(1):
                    (m, c), = x.n.items()
                    if len(m) == 1 and m[0][1] == 1 and by_n(m[0][0]).op == "cmp":
                        return rat_const(c).mul(ind_mul(by_n(m[0][0]), y))
                    if len(m) == 1 and m[0][1] == 1 and by_n(m[0][0]).op == "sign" and y.eq(to_rat(by_n(m[0][0]).args[0])):
                        return rat_const(c).mul(abs_rat(y))
            return ra.mul(rb)
        if op == "/":
            rb = to_rat(b)
            if rb.iszero():
                return rat_atom(mk("bin", "/", canon(a), canon(b)))
            return to_rat(a).mul(rb.inv())
        if op == "**":
            e = num(b)
            if e is not None:
                if float(e).is_integer() and 0 < e <= 4:
                    r = to_rat(a)
                    x = r
                    for _ in range(int(e) - 1):
                        x = x.mul(r)
                    return x
                if e == 0.5:
                    return sqrt_rat(a)
                if e == -1:
                    return to_rat(a).inv()
                if e == -0.5:
                    return sqrt_rat(a).inv()
        if op == "//":
            # a = (a // b) b + a % b
            rb = to_rat(b)
            if not rb.iszero():
                return to_rat(a).add(to_rat(mk("bin", "%", a, b)), -1).mul(rb.inv())
        return rat_atom(mk("bin", op, canon(a), canon(b)))
    if o == "upd":
        base, idx, val = t.args
        idx = fit_slice(base, short_index(idx))
        if idx.op == "ellipsis" or is_full(idx):
            return to_rat(val)
        if idx.op == "tuple" and all(is_full(x) or x.op == "ellipsis" for x in idx.args[0]):
            return to_rat(val)
        if idx.op == "diagix":
            cb = canon(base)
            if cb.op == "call" and isg(cb.args[0], "numpy.zeros") and cb.args[1] and other_length(cb.args[1][0], val):
                return rat_atom(mk("upd", cb, canon(idx), canon(val)))
            if cb.op == "call" and isg(cb.args[0], "numpy.zeros", "numpy.zeros_like") or is_const(cb, 0):
                return rat_atom(mk("diagm", canon(val)))
            if cb.op == "upd" and cb.args[1].op == "diagix":
                return rat_atom(mk("upd", cb.args[0], canon(idx), canon(val)))
            v = canon(val)
            if v.op == "diag" and v.args[0] is cb:
                return to_rat(base)
        if idx.op == "slice":
            # base with base[s] replaced by val  =  base + emb_s(val - base[s])
            rb = to_rat(base)
            delta = to_rat(val).add(to_rat(mk("idx", base, idx)), -1)
            if not any(x.op == "idx" and x.args[0] is canon(base) and x.args[1] is canon(idx) for x in rat_atoms(delta)):
                return rb.add(emb(idx, delta))
        ci = canon(idx)
        if ci.op == "cmp" and ci.args[0] in ("<", "<=", "==", "!="):
            # x[cond on x] = scalar   is   where(cond, scalar, x)
            rv, rb = to_rat(val), to_rat(base)
            if all(is_scalar(x) for x in rat_atoms(rv)) and elementwise_in(ci, canon(base)):
                return rb.add(ind_mul(ci, rv.add(rb, -1)))
        cb = canon(base)
        if cb.op == "upd" and cb.args[2] is canon(val) and swapped(cb.args[1], ci) and ci.n < cb.args[1].n:
            return rat_atom(mk("upd", mk("upd", cb.args[0], ci, cb.args[2]), cb.args[1], cb.args[2]))
        if named(ci):
            # entries under different keys do not depend on the order they are made in
            chain, x = {ci.args[0]: canon(val)}, cb
            while x.op == "upd" and named(x.args[1]):
                chain.setdefault(x.args[1].args[0], x.args[2])
                x = x.args[0]
            for k in sorted(chain):
                x = mk("upd", x, const(k), chain[k])
            return rat_atom(x)
        return rat_atom(mk("upd", cb, ci, canon(val)))
    if o == "tr":
        return push(to_rat(t.args[0]), lambda a: tr_atom(a))
    if o == "bx":
        pat = t.args[1]
        return push(to_rat(t.args[0]), lambda a: mk("bx", a, pat))
    if o == "diag":
        c = canon(t.args[0])
        if c.op == "tr":
            c = c.args[0]
        if c.op == "diagm":
            return to_rat(c.args[0])
        if c.op == "upd" and c.args[1].op == "diagix":
            return to_rat(c.args[2])
        return lin_rat(c, lambda x: mk("abs", mk("diag", x.args[0])) if x.op == "abs" and not is_scalar(x.args[0]) and x.args[0].op not in ("add",) else mk("diag", x))
    if o == "idx":
        base, idx = t.args
        if base.op == "call" and head(base.args[0]) == "numpy.bincount" and len(base.args[1]) == 1 and not base.args[2] and (idx.op == "ix" or isinstance(num(idx), int) and num(idx) >= 0):
            return to_rat(mk("call", g("numpy.sum"), (mk("cmp", "==", base.args[1][0], idx),), ()))
        if idx.op == "call" and short_index(idx) is not idx:
            return to_rat(mk("idx", base, short_index(idx)))
        idx = fit_slice(base, short_index(idx))
        if idx.op == "tuple" and all(is_const(x, None) or is_full(x) or x.op == "ellipsis" for x in idx.args[0]):
            pat = broadcast_pattern(idx)
            return push(to_rat(base), lambda a: mk("bx", a, pat)) if pat else to_rat(base)
        if is_full(idx):
            return to_rat(base)
        if idx.op == "slice" and is_const(idx.args[2], -1) and is_const(idx.args[0], None) and is_const(idx.args[1], None) and is_pair(canon(base)):
            b = canon(base)
            return rat_atom(mk("tuple", (mk("idx", b, const(1)), mk("idx", b, const(0)))))
        if base.op in ("upd", "ite") or base.op == "copy":
            b = canon(base)
            if b.op == "upd":
                ci = canon(idx)
                if b.args[1] is ci:
                    return to_rat(b.args[2])
                if named(ci) and named(b.args[1]):
                    return to_rat(mk("idx", b.args[0], ci))
                if isinstance(num(b.args[1]), int) and isinstance(num(ci), int) and (num(b.args[1]) >= 0) == (num(ci) >= 0):
                    return to_rat(mk("idx", b.args[0], ci))
        if base.op in ("bin", "concat", "list", "tuple") and isinstance(num(idx), int) and (base.op != "bin" or base.args[0] == "+" and listy(base)):
            b = canon(base)
            if b.op == "concat" and num(idx) >= 0:
                b = b.args[0]
            xs = b.args[0] if b.op == "tuple" else b.args[1] if b.op == "list" and is_const(b.args[0], None) else ()
            if (-len(xs) if b is canon(base) else 0) <= num(idx) < len(xs):
                return to_rat(xs[num(idx)])
        if base.op == "idx":
            j = compose_index(canon(base.args[1]), canon(idx))
            if j is not None:
                return to_rat(mk("idx", base.args[0], j))
        if base.op == "attr" and base.args[1] == "shape" and isinstance(num(idx), int):
            s = canon(base)
            if s.op == "tuple" and -len(s.args[0]) <= num(idx) < len(s.args[0]):
                return to_rat(s.args[0][num(idx)])
        if base.op == "attr" and base.args[1] == "shape" and isinstance(num(idx), int) and num(idx) < 0:
            b = canon(base.args[0])
            if b.op == "idx" and (b.args[1].op == "ix" or isinstance(num(b.args[1]), int)):
                return to_rat(mk("idx", mk("attr", b.args[0], "shape"), idx))
        if base.op == "idx" and base.args[1].op == "slice" and is_const(base.args[1].args[2], None) and isinstance(num(idx), int):
            lo, hi = (num(x) for x in base.args[1].args[:2])
            lo = 0 if is_const(base.args[1].args[0], None) else lo
            if isinstance(lo, int) and lo >= 0 and num(idx) >= 0 and (is_const(base.args[1].args[1], None) or isinstance(hi, int) and (
                    hi > lo + num(idx) or hi < 0)):
                if base.args[0].op == "attr" and base.args[0].args[1] == "shape" and lo + num(idx) == 0:
                    return rat_atom(canon(mk("len", base.args[0].args[0])))
                return to_rat(mk("idx", base.args[0], const(lo + num(idx))))
            if (is_const(base.args[1].args[1], None) or isinstance(hi, int) and hi < 0) and num(idx) < 0 and isinstance(lo, int) and lo >= 0:
                return to_rat(mk("idx", base.args[0], const(num(idx) + (hi or 0))))
        if idx.op == "ix" and base.op == "idx" and base.args[1].op == "slice" and is_const(base.args[1].args[2], None) and is_const(base.args[1].args[1], None) and \
                from_here(base.args[1].args[0]):
            return to_rat(mk("idx", base.args[0], mk("bin", "+", base.args[1].args[0], idx)))
        if idx.op == "slice":
            ci = canon(idx)
            return push(to_rat(base), lambda a: idx_atom(a, ci))
        if idx.op in ("ix",):
            idx = canon(idx)
            b = canon(base)
            if idx.op != "ix":
                if b.op == "map":
                    return to_rat(subst(b.args[1], {b.args[0].n: idx}))
                return push(to_rat(base), lambda a: idx_atom(a, idx))
            if b.op in ("map", "stack") and b.args[0] is idx:
                return to_rat(b.args[1])
            return push(to_rat(base), lambda a: idx_atom(a, idx))
        if idx.op in ("add", "bin"):
            ci = canon(idx)
            b = canon(base)
            if ci.op == "add" and b.op == "map" and is_const(b.args[0].args[0], 0) and is_const(b.args[0].args[2], 1) and all(
                    x.op == "ix" for x in rat_atoms(to_rat(ci))) and all(c > 0 for c in to_rat(ci).n.values()):
                # counted from the front
                return to_rat(subst(b.args[1], {b.args[0].n: ci}))
        return rat_atom(atom(t))
    if o == "rsum":
        ix, body = binder(t.args[0]), t.args[1]
        r = to_rat(body)
        out = rat_const(0)
        if r.d != p_const(1):
            return rat_atom(mk("rsum", ix, from_rat(r)))
        for m, c in r.n.items():
            dep = [(k, e) for k, e in m if depends(by_n(k), ix)]
            ind = [(k, e) for k, e in m if not depends(by_n(k), ix)]
            if not dep:
                inner = const(1)
            else:
                inner = from_rat(Rat({tuple(dep): Fraction(1)}))
            term = Rat({tuple(ind): c}).mul(rat_atom(mk("rsum", ix, inner)))
            out = out.add(term)
        return out
    if o == "mm":
        return mm_rat(t.args[0])
    if o == "call":
        r = call_rat(t)
        if r is not None:
            return r
    a = atom(t)
    if a is not t and (a.op in CANON_OPS or num(a) is not None):
        return to_rat(a)
    return rat_atom(a)


def elementwise_in(c, x):
    """c is an elementwise condition on x and scalars only"""
    def ok(t):
        if t is x or is_scalar(t):
            return True
        if t.op in ("abs", "sign", "sqrt", "add", "mul", "pw", "div"):
            return all(ok(y) for y in t.args if hasattr(y, "op"))
        return t.op in ("fr", "const")
    return any(y is x for y in walk(c)) and all(ok(y) for y in c.args[1:])


PAIRS = {"numpy.triu_indices", "numpy.tril_indices", "numpy.triu_indices_from", "numpy.tril_indices_from", "numpy.diag_indices", "numpy.diag_indices_from"}


def is_pair(t):
    """a call returning (rows, columns)"""
    return t.op == "call" and head(t.args[0]) in PAIRS


def named(k):
    return k.op == "const" and isinstance(k.args[0], str)


def swapped(i, j):
    """index (rows, columns) and index (columns, rows) of one pair"""
    if i.op == j.op == "tuple" and len(i.args[0]) == len(j.args[0]) == 2:
        return i.args[0] == j.args[0][::-1]
    for a, b in ((i, j), (j, i)):
        if is_pair(a) and b.op == "tuple" and len(b.args[0]) == 2:
            p, q = b.args[0]
            if p.op == q.op == "idx" and p.args[0] is a and q.args[0] is a and is_const(p.args[1], 1) and is_const(q.args[1], 0):
                return True
    return False


def fit_slice(base, idx):
    """a bound counted from the length of the sliced array is one counted from its end"""
    if idx.op != "slice" or all(x.op == "const" for x in idx.args):
        return idx

    def end(b):
        if b.op == "const" or b.op == "un" or not any(x.op == "len" or x.op == "attr" for x in walk(b)):
            return b
        c = canon(b)
        k, n = 0, c
        if c.op == "add" and len(c.args) == 2:
            k, n = (num(c.args[0]), c.args[1]) if num(c.args[0]) is not None else (num(c.args[1]), c.args[0])
        if n.op == "len" and isinstance(k, int) and k <= 0 and len_of(base) is n:
            return const(k) if k else None
        return b
    lo, hi = end(idx.args[0]), end(idx.args[1])
    if lo is None:
        return idx
    hi = NONE if hi is None else hi
    return idx if lo is idx.args[0] and hi is idx.args[1] else mk("slice", lo, hi, idx.args[2])


def listy(t):
    return t.op in ("list", "tuple", "concat") or (t.op == "ite" and (listy(t.args[1]) or listy(t.args[2]))) or (
        t.op == "bin" and t.args[0] == "+" and (listy(t.args[1]) or listy(t.args[2])))


def concat(a, b):
    """concatenation of sequences"""
    if a.op == "tuple" and b.op == "tuple":
        return mk("tuple", a.args[0] + b.args[0])
    if b.op == "list" and is_const(b.args[0], None):
        if not b.args[1]:
            return a
        if a.op == "list":
            return mk("list", a.args[0], a.args[1] + b.args[1])
    if a.op == "list" and is_const(a.args[0], None) and not a.args[1]:
        return b
    if b.op == "concat":
        return concat(concat(a, b.args[0]), b.args[1])
    if a.op == "concat" and a.args[1].op == "list" and b.op == "list" and is_const(b.args[0], None):
        return mk("concat", a.args[0], concat(a.args[1], b))
    return mk("concat", a, b)


def call_rat(t):
    h, args, k = norm_call(t)
    n = len(args)
    f = t.args[0]
    if f.op == "attr" and f.args[1] == "astype" and len(t.args[1]) == 1 and (
            isg(t.args[1][0], "builtins.float", "numpy.float64") or is_const(t.args[1][0], "float", "float64")):
        return to_rat(f.args[0])
    if h is None:
        return None
    if h == "numpy.vstack" and n == 1 and not k:
        c = canon(args[0])
        if c.op == "map":
            # rows: the groups of samples of a data matrix reduced over the samples
            e = c.args[1]
            while e.op == "ite":
                e = e.args[1]
            if e.op == "call" and head(e.args[0]) in ("numpy.mean", "numpy.sum", "numpy.max", "numpy.min", "numpy.std", "numpy.var", "numpy.median") and dict(
                    e.args[2]).keys() == {"axis"} and is_const(dict(e.args[2])["axis"], 0) and e.args[1][0].op == "idx":
                return to_rat(c)
    if h == "numpy.sqrt" and n == 1 and not k:
        return sqrt_rat(args[0])
    if h == "numpy.log1p" and n == 1 and not k:
        return to_rat(mk("call", g("numpy.log"), (mk("bin", "+", const(1), args[0]),), ()))
    if h == "numpy.expm1" and n == 1 and not k:
        return to_rat(mk("bin", "-", mk("call", g("numpy.exp"), (args[0],), ()), const(1)))
    if h == "numpy.square" and n == 1 and not k:
        r = to_rat(args[0])
        return r.mul(r)
    if h == "numpy.power" and n == 2 and not k:
        return to_rat(mk("bin", "**", *args))
    if h == "numpy.reciprocal" and n == 1:
        r = to_rat(args[0])
        return None if r.iszero() else r.inv()
    if h in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide") and n == 2 and not k:
        return to_rat(mk("bin", {"numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*", "numpy.divide": "/"}[h], *args))
    if h == "numpy.negative" and n == 1:
        return rat_const(-1).mul(to_rat(args[0]))
    if h in SQ and n == 1:
        return sq_rat(args[0])
    if h in SQ and not n and set(k) == {"x"}:
        return sq_rat(k["x"])
    if h == "builtins.sum" and n == 1 and not k:
        c = seq(args[0])
        if c.op == "map":
            return to_rat(mk("rsum", *c.args))
        return None
    if h in ("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "builtins.float", "numpy.float64") and n == 1 and set(k) <= {"dtype", "copy"}:
        a0 = seq(args[0])
        if a0.op in ("tuple", "list", "startuple", "range"):
            return None
        if "dtype" in k and not isg(k["dtype"], "builtins.float", "numpy.float64"):
            return None
        return to_rat(a0)
    if h == "numpy.transpose" and n == 1 and not k:
        return to_rat(mk("tr", args[0]))
    if h == "numpy.transpose" and n == 2 and not k and args[1].op == "tuple":
        p = [num(x) for x in args[1].args[0]]
        if p == list(range(len(p))):
            return to_rat(args[0])
        if sorted(x for x in p if isinstance(x, int)) == list(range(len(p))):
            pt = canon(args[1])
            return push(to_rat(args[0]), lambda a: mk("call", g(h), (a, pt), ()))
    if h == "numpy.linalg.norm" and n == 1 and "axis" not in k and set(k) <= {"ord"}:
        if "ord" not in k or is_const(k["ord"], "fro"):
            return sqrt_rat(from_rat(sq_rat(args[0])))
    if h == "numpy.linalg.norm" and n == 1 and "axis" in k and set(k) <= {"axis", "ord", "keepdims"} and isinstance(num(k["axis"]), int):
        # along one axis: the vector norm
        o = num(k["ord"]) if "ord" in k and not is_const(k["ord"], None) else 2
        rest = tuple(sorted((a, b) for a, b in k.items() if a != "ord"))
        if o == 2 and o is not True:
            return to_rat(mk("call", g("numpy.sqrt"), (mk("call", g("numpy.sum"), (mk("bin", "**", args[0], const(2)),), rest),), ()))
        if o == 1:
            return to_rat(mk("call", g("numpy.sum"), (mk("call", g("numpy.abs"), (args[0],), ()),), rest))
    if h in ("numpy.vdot",) and n == 2:
        return sum_rat(mk("bin", "*", *args), {})
    if h == "numpy.sum" and n == 1:
        return sum_rat(args[0], k)
    if h == "numpy.count_nonzero" and n == 1 and set(k) <= {"axis"}:
        c = canon(args[0])
        if c.op not in BOOL_OPS:
            c = canon(mk("cmp", "!=", args[0], const(0)))
        return sum_rat(c, k)
    if h == "numpy.mean" and n == 1:
        return lin_rat(args[0], lambda x: mk("call", g("numpy.mean"), (x,), tuple(sorted((a, canon(b)) for a, b in k.items()))))
    if h == "numpy.trace" and n == 1 and not k:
        c = canon(args[0])
        if c.op == "mm" and len(c.args[0]) == 2:
            return sum_rat(mk("bin", "*", c.args[0][0], mk("tr", c.args[0][1])), {})
        return lin_rat(args[0], lambda x: mk("call", g("numpy.trace"), (x,), ()))
    if h == "numpy.trace" and n == 1 and set(k) == {"axis1", "axis2"} and {num(k["axis1"]), num(k["axis2"])} == {-1, -2}:
        return to_rat(mk("call", g("numpy.sum"), (mk("diag", args[0]),), (("axis", const(-1)),)))
    if h == "numpy.abs" and n == 1 and not k:
        return abs_rat(to_rat(args[0]))
    if h == "numpy.sign" and n == 1 and not k:
        return sign_rat(to_rat(args[0]))
    if h in ("numpy.maximum", "builtins.max") and n == 2 and not k:
        return max_rat(to_rat(args[0]), to_rat(args[1]))
    if h in ("numpy.minimum", "builtins.min") and n == 2 and not k:
        return max_rat(to_rat(args[0]), to_rat(args[1]), -1)
    if h in ("builtins.max", "builtins.min") and n > 2 and not k:
        r = to_rat(args[0])
        for a in args[1:]:
            r = max_rat(r, to_rat(a), 1 if h == "builtins.max" else -1)
        return r
    if h == "numpy.clip" and n == 1 and set(k) <= {"a_min", "a_max"}:
        r = to_rat(args[0])
        if "a_min" in k and not is_const(k["a_min"], None):
            r = max_rat(r, to_rat(k["a_min"]))
        if "a_max" in k and not is_const(k["a_max"], None):
            r = max_rat(r, to_rat(k["a_max"]), -1)
        return r
    if h == "numpy.where" and n == 3 and not k:
        c = canon(args[0])
        a, b = to_rat(filler(args[1], c, args[2])), to_rat(filler(args[2], c, args[1]))
        return b.add(ind_mul(c, a.add(b, -1)))
    if h == "@" and n == 2:
        return mm_rat(args)
    if h == "@@" and n == 1 and args[0].op in ("tuple", "list"):
        return mm_rat(args[0].args[0] if args[0].op == "tuple" else args[0].args[1])
    return None


def filler(x, c, other):
    """a branch of where(c, ...) that is a constant array shaped like something in c: just the constant"""
    if x.op == "call" and head(x.args[0]) in ("numpy.full_like", "numpy.zeros_like", "numpy.ones_like", "numpy.full", "numpy.zeros", "numpy.ones"):
        h, args, k = norm_call(x)
        s = args[0] if args else None
        if s is not None and not set(k) - {"fill_value"}:
            b = s if h.endswith("_like") else s.args[0] if s.op == "attr" and s.args[1] == "shape" else None
            if b is not None and any(y is canon(b) for z in (c, canon(other)) for y in walk(z)):
                return k["fill_value"] if "fill_value" in k else const(0 if "zeros" in h else 1)
    return x


def seq(x):
    """strip list()/tuple()/iteration wrappers of a sequence"""
    while True:
        if x.op == "call" and isg(x.args[0], "builtins.list", "builtins.tuple", "builtins.iter") and len(x.args[1]) == 1 and not x.args[2]:
            x = x.args[1][0]
        elif x.op == "list" and not x.args[1] and x.args[0].op == "map":
            x = x.args[0]
        else:
            return x


AS_FUNCTION = {"sum", "mean", "max", "min", "prod", "any", "all", "argmax", "argmin", "std", "var", "dot", "transpose", "ravel", "reshape", "swapaxes",
               "trace", "diagonal", "cumsum", "squeeze", "repeat", "nonzero", "flatten", "round", "clip"}


def as_function(t):
    """ndarray method call -> the numpy function of the same name; axes/shape arguments as one tuple"""
    f = t.args[0]
    if f.op == "attr" and f.args[1] in AS_FUNCTION and f.args[0].op != "glob":
        m = "ravel" if f.args[1] == "flatten" else f.args[1]
        args = t.args[1]
        if m in ("transpose", "reshape") and len(args) > 1:
            args = (mk("tuple", args),)
        if not (m == "transpose" and not args):
            return mk("call", g("numpy." + m), (f.args[0],) + args, t.args[2])
        return mk("tr", f.args[0])
    h = head(f)
    if h in ("numpy.transpose", "numpy.reshape") and len(t.args[1]) == 1 and len(t.args[2]) == 1 and t.args[2][0][0] in ("axes", "newshape", "shape"):
        return mk("call", f, (t.args[1][0], t.args[2][0][1]), ())
    if h in ("numpy.transpose", "numpy.reshape") and len(t.args[1]) == 2 and t.args[1][1].op == "list" and is_const(t.args[1][1].args[0], None):
        return mk("call", f, (t.args[1][0], mk("tuple", t.args[1][1].args[1])), t.args[2])
    return t


def int_index(i):
    """an index that selects one element (an integer, not an array)"""
    if i.op == "ix" or isinstance(num(i), int):
        return True
    if i.op in CANON_OPS or i.op in ("bin", "un"):
        try:
            r = to_rat(i)
        except Overflow:
            return False
        return r.d == p_const(1) and all(c.denominator == 1 for c in r.n.values()) and bool(r.n) and all(
            x.op in ("ix", "len") or (x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "shape") for x in rat_atoms(r))
    return False


def short_index(i):
    """trailing full slices add nothing to an index; the positions where a condition holds select what the condition selects"""
    if i.op == "call" and head(i.args[0]) in ("numpy.where", "numpy.nonzero") and len(i.args[1]) == 1 and not i.args[2]:
        c = canon(i.args[1][0])
        if c.op in ("cmp", "and", "or", "not"):
            return c
    if i.op == "tuple" and len(i.args[0]) > 1 and is_full(i.args[0][-1]) and not any(x.op == "ellipsis" for x in i.args[0]):
        xs = list(i.args[0])
        if all(is_const(x, None) or is_full(x) for x in xs):
            return i
        while len(xs) > 1 and is_full(xs[-1]):
            xs.pop()
        return mk("tuple", tuple(xs)) if len(xs) > 1 else xs[0]
    return i


def compose_index(i, j):
    """x[i][j] as x[k], for i made of integers and full slices"""
    a = list(i.args[0]) if i.op == "tuple" else [i]
    b = list(j.args[0]) if j.op == "tuple" else [j]
    if not all(int_index(x) or is_full(x) for x in a) or not any(int_index(x) for x in a):
        return None
    if all(int_index(x) for x in a) and not any(is_const(x, None) or x.op in ("slice", "ellipsis") for x in b):
        return mk("tuple", tuple(a + b))
    if not all(int_index(x) or x.op == "slice" for x in b):
        return None
    out = []
    for x in a:
        out.append(b.pop(0) if is_full(x) and b else x)
    out += b
    while len(out) > 1 and is_full(out[-1]):
        out.pop()
    return mk("tuple", tuple(out)) if len(out) > 1 else out[0]


def broadcast_pattern(idx):
    """where new axes go, as a string of f(ull) and N(ew); new leading axes and trailing full slices change nothing under broadcasting"""
    s = "".join("N" if is_const(x, None) else "e" if x.op == "ellipsis" else "f" for x in idx.args[0])
    if s.startswith("e") and s[1:].strip("N"):
        return s if "N" in s else ""
    if s.startswith("e"):
        s = "f" + s[1:] if "N" in s else ""
    s = s.rstrip("fe").lstrip("N")
    return s if "N" in s else ""


def lead(r):
    m = max(r.n)
    return r.n[m] / (r.d[max(r.d)] if r.d else 1)


def abs_rat(r):
    if r.iszero():
        return r
    if r.isconst():
        return rat_const(abs(r.constval()))
    c = lead(r)
    r = rat_const(1 / c).mul(r)
    at = from_rat(r)
    if at.op in ("abs", "sqrt", "sq", "len") or (at.op == "pw" and at.args[1] % 2 == 0):
        return rat_const(abs(c)).mul(r)
    if len(r.n) == 1 and r.d == p_const(1):
        # |x*y| = |x||y| with manifestly non-negative factors pulled out
        (m, _), = r.n.items()
        pos = [(k, e) for k, e in m if nonneg(by_n(k)) or e % 2 == 0]
        rest = [(k, e) for k, e in m if not (nonneg(by_n(k)) or e % 2 == 0)]
        if pos:
            out = Rat({tuple(pos): Fraction(1)}).mul(rat_const(abs(c)))
            return out.mul(abs_rat(Rat({tuple(rest): Fraction(1)}))) if rest else out
    return rat_const(abs(c)).mul(rat_atom(mk("abs", at)))


def nonneg(a):
    return a.op in ("abs", "sqrt", "sq", "len", "cmp", "not", "and", "or", "ind")


def sign_rat(r):
    if r.iszero():
        return r
    if r.isconst():
        return rat_const(1 if r.constval() > 0 else -1)
    c = lead(r)
    r = rat_const(1 / c).mul(r)
    return rat_const(1 if c > 0 else -1).mul(rat_atom(mk("sign", from_rat(r))))


def max_rat(a, b, s=1):
    return rat_const(Fraction(1, 2)).mul(a.add(b).add(abs_rat(a.add(b, -1)), s))


def divide(r, x):
    """r / x when x (a sum) divides r exactly as a polynomial"""
    if r.d != p_const(1) or x.d != p_const(1) or len(x.n) < 2 or len(r.n) < len(x.n) or len(r.n) > 60:
        return None
    lm = max(x.n)
    rem, q = dict(r.n), {}
    for _ in range(60):
        if not rem:
            return Rat(q)
        for m in sorted(rem, reverse=True):
            t = m_mul(m, tuple((k, -e) for k, e in lm))
            if all(e > 0 for k, e in t if k in dict(lm)) and t not in q:
                break
        else:
            return None
        c = rem[m] / x.n[lm]
        q[t] = c
        rem = p_add(rem, p_mul({t: c}, x.n), -1)
    return None


def ind_mul(c, r):
    """indicator(c) * r, with  [0<x]*x = (x+|x|)/2"""
    if c.op == "cmp" and c.args[0] in ("<", "<=") and is_const(c.args[1], 0):
        x = to_rat(c.args[2])
        for s in (1, -1):
            if r.eq(rat_const(s).mul(x)):
                return rat_const(s).mul(max_rat(x, rat_const(0)))
        q = divide(r, x)
        if q is not None:
            return q.mul(max_rat(x, rat_const(0)))
    if c.op == "cmp" and c.args[0] in ("==", "!=") and is_const(c.args[1], 0) and r.d == p_const(1):
        # x [x == 0] = 0
        x = c.args[2]
        z = Rat({m: k for m, k in r.n.items() if not any(a == x.n and e > 0 for a, e in m)})
        if len(z.n) < len(r.n):
            e = rat_atom(c if c.args[0] == "==" else canon(mk("not", c))).mul(z)
            return e if c.args[0] == "==" else r.add(e, -1)
    return indicator(c).mul(r)


def indicator(c):
    """1 where c holds, else 0; of a condition and its complement only one is an atom"""
    if c.op == "cmp" and (c.args[0] == "<=" and is_const(c.args[1], 0) or c.args[0] in ("!=", "is not", "not in")) or c.op == "not":
        d = canon(mk("not", c))
        if d.op != "not":
            return rat_const(1).add(rat_atom(d), -1)
    return rat_atom(c)


def monos(r):
    """[(coefficient, scalar part Rat, array part term or None)] for polynomial r"""
    out = []
    for m, c in r.n.items():
        sc = tuple((k, e) for k, e in m if is_scalar(by_n(k)))
        ar = tuple((k, e) for k, e in m if not is_scalar(by_n(k)))
        out.append((Rat({sc: c}), from_rat(Rat({ar: Fraction(1)})) if ar else None))
    return out


def lin_rat(x, f):
    r = to_rat(x)
    if r.d != p_const(1) or r.iszero():
        return rat_atom(f(from_rat(r)))
    ms = monos(r)
    if any(a is None for _, a in ms):
        return rat_atom(f(from_rat(r)))
    acc = rat_const(0)
    for c, a in ms:
        y = f(a)
        acc = acc.add(c.mul(to_rat(y) if y.op in CANON_OPS else rat_atom(y)))
    return acc


def turned(a):
    """a product and its transpose have the same sum: one of the two spellings"""
    fs, x = [], a
    while x.op == "mul":
        fs.append(x.args[0])
        x = x.args[1]
    fs.append(x)
    fs = [f for f in fs if not is_scalar(f)]
    if not fs or not any(f.op == "tr" for f in fs) or any(f.op in ("bx", "sum") for f in fs):
        return a
    b = canon(mk("tr", a))
    k = sum(1 for f in fs if f.op == "tr")
    return b if b.op == "mul" and (2 * k > len(fs) or 2 * k == len(fs) and b.n < a.n) else a


def sum_rat(x, k):
    k2 = {}
    for a, b in k.items():
        b = canon(b)
        if a == "axis" and b.op == "tuple":
            b = mk("tuple", tuple(sorted(b.args[0], key=lambda z: str(num(z)))))
        k2[a] = b
    if not k2:
        s = sq_sum(x)
        if s is not None:
            return s

    def f(a):
        if not k2 and a.op == "list" and is_const(a.args[0], None) and not a.args[1]:
            return const(0)
        if set(k2) == {"axis"} and a.op == "sum" and [y for y, _ in a.args[1]] == ["axis"]:
            # successive sums over trailing axes
            o, i = k2["axis"], a.args[1][0][1]
            os = [num(z) for z in (o.args[0] if o.op == "tuple" else (o,))]
            js = [num(z) for z in (i.args[0] if i.op == "tuple" else (i,))]
            if all(isinstance(z, int) and z < 0 for z in os + js):
                left = [z for z in range(-1, -20, -1) if z not in js]
                ax = sorted([left[-z - 1] for z in os] + js, key=str)
                return mk("sum", a.args[0], (("axis", mk("tuple", tuple(const(z) for z in ax))),))
        if not k2:
            if a.op == "pw" and a.args[1] == 2:
                return mk("sq", a.args[0])
            if a.op == "tr":
                a = a.args[0]
            if a.op == "mul":
                a = turned(a)
            if a.op == "map":
                return canon(mk("rsum", a.args[0], a.args[1]))
        return mk("sum", a, tuple(sorted(k2.items())))
    return lin_rat(x, f)


def mm_rat(fs):
    rats = []
    for x in fs:
        c = canon(x)
        if c.op == "mm":
            rats.extend(to_rat(y) for y in c.args[0])
        else:
            rats.append(to_rat(c))
    if any(r.iszero() for r in rats):
        return rat_const(0)
    tot = 1
    for r in rats:
        tot *= max(1, len(r.n))
    if tot > 24 or any(r.d != p_const(1) for r in rats) :
        return rat_atom(mk("mm", tuple(from_rat(r) for r in rats)))
    acc = [(rat_const(1), ())]
    for r in rats:
        nxt = []
        for sc, facs in acc:
            for c, a in monos(r):
                a = const(1) if a is None else a
                nxt.append((sc.mul(c), facs + (a.args[0] if a.op == "mm" else (a,))))
        acc = nxt
    out = rat_const(0)
    for sc, facs in acc:
        out = out.add(sc.mul(rat_atom(mk("mm", facs))))
    return out


def sq_sum(a):
    """sum(x**2) -> sq(x)"""
    if a.op == "bin" and a.args[0] == "**" and num(a.args[2]) == 2:
        return sq_rat(a.args[1])
    if a.op == "bin" and a.args[0] == "*" and canon(a.args[1]) is canon(a.args[2]):
        return sq_rat(a.args[1])
    if a.op == "call" and isg(a.args[0], "numpy.square"):
        return sq_rat(a.args[1][0])
    return None


def rat_atoms(r):
    s = set()
    for p in (r.n, r.d):
        for m in p:
            for k, _ in m:
                s.add(k)
    return [by_n(k) for k in sorted(s)]


def depends(t, ix):
    return any(x is ix for x in walk(t))


def sq_rat(x):
    """squared Frobenius norm; scalar factors are taken out"""
    r = to_rat(x)
    if r.iszero():
        return r
    out = rat_const(1)
    c = r.n[max(r.n)]
    if c != 1:
        r = rat_const(1 / c).mul(r)
        out = rat_const(c * c)
    if r.d != p_const(1) and all(is_scalar(a) for a in rat_atoms(Rat(r.d))):
        d = Rat(r.d)
        r, out = Rat(r.n), out.mul(d.mul(d).inv())
    low = None
    for m in r.n:
        e = {k: e for k, e in m if is_scalar(by_n(k))}
        low = e if low is None else {k: min(e[k], low[k]) for k in low if k in e and (e[k] > 0) == (low[k] > 0)}
    f = Rat({tuple(sorted(low.items())): Fraction(1)}) if low else None
    if f is not None:
        g = f.mul(f)
        r, out = r.mul(f.inv()), out.mul(g)
    return out.mul(rat_atom(mk("sq", from_rat(r))))


WEIGHTS = {"lamda", "lambda_", "alpha", "beta", "tau", "eta", "psi", "phi", "rho", "gamma", "weight", "l", "lam", "theta"}


def sqrt_rat(c):
    """square root; squares of factors that are not negative are taken out (weights and penalty parameters never are)"""
    r = to_rat(c)
    if r.d != p_const(1) or len(r.n) != 1:
        return rat_atom(mk("sqrt", from_rat(r)))
    (m, k), = r.n.items()
    out = rat_const(1)
    if k > 0:
        a, b = math.isqrt(k.numerator), math.isqrt(k.denominator)
        if a * a == k.numerator and b * b == k.denominator:
            out, k = rat_const(Fraction(a, b)), Fraction(1)
    rest, took = [], []
    for n, e in m:
        x = by_n(n)
        if abs(e) > 1 and (nonneg(x) or x.op in ("param", "self0", "mu") and is_scalar(x) and str(x.args[1 if x.op in ("param", "mu") else 0]) in WEIGHTS):
            h = int(e / 2)
            took.append((n, h))
            if e - 2 * h:
                rest.append((n, e - 2 * h))
        else:
            rest.append((n, e))
    if took:
        out = out.mul(Rat({tuple(took): Fraction(1)}))
    if not rest and k == 1:
        return out
    return out.mul(rat_atom(mk("sqrt", from_rat(Rat({tuple(rest): k})))))


def squared(t):
    """canonical form of t**2, collapsing sqrt"""
    r = to_rat(t)
    r2 = r.mul(r)
    return collapse(r2)


def collapse(r):
    """replace sqrt(x)^2 by x in a Rat"""
    out = rat_const(0)

    def coll(p):
        acc = rat_const(0)
        for m, c in p.items():
            term = rat_const(c)
            for k, e in m:
                a = by_n(k)
                if a.op == "sqrt" and e % 2 == 0:
                    inner = to_rat(a.args[0])
                    if e < 0:
                        inner = inner.inv()
                    for _ in range(abs(e) // 2):
                        term = term.mul(inner)
                else:
                    term = term.mul(Rat({((k, e),): Fraction(1)}))
            acc = acc.add(term)
        return acc
    return coll(r.n).mul(coll(r.d).inv())


def is_full(x):
    return x.op == "slice" and all(is_const(a, None) for a in x.args)


SCALAR_OPS = {"const", "len", "ix", "sq"}


def is_scalar(a):
    if a.op in SCALAR_OPS:
        return True
    if a.op == "sqrt":
        return all(is_scalar(x) for x in rat_atoms(to_rat(a.args[0])))
    if a.op == "sum":
        return not a.args[1]
    if a.op in ("abs", "sign"):
        return all(is_scalar(x) for x in rat_atoms(to_rat(a.args[0])))
    if a.op == "param":
        return a.args[0] == "num"
    if a.op == "mu":
        return a.args[2] == "num"
    if a.op == "call" and a.args[0].op == "glob":
        return a.args[0].args[1] in ("regain.update_rules.update_rho", "regain.update_rules.update_gamma", "builtins.float", "builtins.int")
    if a.op == "attr":
        return a.args[1] in ("size", "ndim")
    if a.op == "idx" and a.args[0].op == "attr" and a.args[0].args[1] == "shape":
        return True
    if a.op == "ite":
        return is_scalar(a.args[1]) and is_scalar(a.args[2])
    return False


def push(r, f):
    """apply a pointwise-compatible re-indexing to every atom"""
    def go(p):
        acc = rat_const(0)
        for m, c in p.items():
            term = rat_const(c)
            for k, e in m:
                a = by_n(k)
                b = a if is_scalar(a) else f(a)
                v = num(b)
                if isinstance(v, int) and (v or e > 0):
                    term = term.mul(rat_const(Fraction(v) ** e))
                else:
                    term = term.mul(Rat({((b.n, e),): Fraction(1)}))
            acc = acc.add(term)
        return acc
    return go(r.n).mul(go(r.d).inv())


def tr_atom(a):
    if a.op == "tr":
        return a.args[0]
    if a.op == "idx" and a.args[1].op in ("slice", "ix"):
        return mk("idx", tr_atom(a.args[0]), a.args[1])
    if a.op == "mm":
        return mk("mm", tuple(from_rat(push(to_rat(x), tr_atom)) for x in reversed(a.args[0])))
    if a.op == "diagm":
        return a
    if a.op == "idx" and a.args[0].op == "param" and a.args[1].op == "tuple" and len(a.args[1].args[0]) == 2:
        i, j = a.args[1].args[0]
        if int_index(i) and (j.op == "slice" or j.op == "idx" and is_const(j.args[1], 0) and j.args[0].op == "call" and isg(j.args[0].args[0], "numpy.where")):
            return a  # selected entries of one row of a data matrix
    if a.op in ("abs", "sign"):
        return mk(a.op, from_rat(push(to_rat(a.args[0]), tr_atom)))
    return mk("tr", a)


def idx_atom(a, i):
    if a.op in ("map", "stack") and a.args[0] is i:
        return canon(a.args[1])
    if a.op == "tr":
        return mk("idx", a, i)
    if i.op == "ix" and a.op == "call" and head(a.args[0]) in ("numpy.ones", "numpy.zeros") and len(a.args[1]) == 1 and \
            is_scalar(canon(a.args[1][0])):
        return const(1 if head(a.args[0]) == "numpy.ones" else 0)
    return mk("idx", a, i)


def emb(idx, r):
    """zero-padded embedding of a slice, linear in r"""
    ci = canon(idx)
    acc = rat_const(0)
    if r.d != p_const(1):
        return rat_atom(mk("emb", ci, from_rat(r)))
    for m, c in r.n.items():
        sc = [(k, e) for k, e in m if is_scalar(by_n(k))]
        ar = [(k, e) for k, e in m if not is_scalar(by_n(k))]
        inner = from_rat(Rat({tuple(ar): Fraction(1)})) if ar else const(1)
        acc = acc.add(Rat({tuple(sc): c}).mul(rat_atom(mk("emb", ci, inner))))
    return acc


def from_rat(r):
    def poly(p):
        acc = None
        for m, c in sorted(p.items(), key=lambda z: z[0]):
            term = None
            for k, e in m:
                a = by_n(k)
                f = a if e == 1 else mk("pw", a, e)
                term = f if term is None else mk("mul", term, f)
            cc = int(c) if c.denominator == 1 else float(c)
            if term is None:
                term = const(cc)
            elif c != 1:
                term = mk("mul", const(cc) if c.denominator == 1 else mk("fr", c.numerator, c.denominator), term)
            acc = term if acc is None else mk("add", acc, term)
        return acc if acc is not None else const(0)
    n = poly(r.n)
    if r.d == p_const(1):
        _rat_of[n.n] = r
        return n
    t = mk("div", n, poly(r.d))
    _rat_of[t.n] = r
    return t


_rat_of = {}
_orig_to_rat = to_rat


def to_rat(t):  # noqa: F811  (canonical terms map straight back to their rational form)
    r = _rat_of.get(t.n)
    if r is not None:
        return r
    o = t.op
    if o in CANON_OPS:
        # canonical operators whose operands were substituted: normalise again
        _rat_of[t.n] = rat_atom(t)
        try:
            r = renorm(t)
        except BaseException:
            del _rat_of[t.n]
            raise
        _rat_of[t.n] = r
        return r
    if o in ("ite",):
        return rat_atom(atom(t))
    return _orig_to_rat(t)


CANON_OPS = {"add", "mul", "pw", "fr", "div", "sqrt", "sq", "abs", "sign", "sum", "emb", "diagm", "mm"}


def renorm(t):
    o, a = t.op, t.args
    if o == "add":
        return to_rat(a[0]).add(to_rat(a[1]))
    if o == "mul":
        return to_rat(mk("bin", "*", a[0], a[1]))
    if o == "pw":
        r = to_rat(a[0])
        if a[1] < 0:
            if r.iszero():
                return rat_atom(t)
            r = r.inv()
        x = r
        for _ in range(abs(a[1]) - 1):
            x = x.mul(r)
        return x
    if o == "fr":
        return rat_const(Fraction(a[0], a[1]))
    if o == "div":
        r = to_rat(a[1])
        return rat_atom(t) if r.iszero() else to_rat(a[0]).mul(r.inv())
    if o == "sqrt":
        return sqrt_rat(a[0])
    if o == "sq":
        return sq_rat(a[0])
    if o == "abs":
        return abs_rat(to_rat(a[0]))
    if o == "sign":
        return sign_rat(to_rat(a[0]))
    if o == "sum":
        return sum_rat(a[0], dict(a[1]))
    if o == "emb":
        return emb(a[0], to_rat(a[1]))
    if o == "diagm":
        return rat_atom(mk("diagm", canon(a[0])))
    return mm_rat(a[0])


def atom(t):
    o = t.op
    if o in ("param", "self0", "mu", "glob", "ref", "unbound", "exited", "exhausted", "brk", "retd"):
        return t
    if o == "un" and t.args[0] == "~":
        x = canon(t.args[1])
        return canon(mk("not", x)) if is_mask(x) else mk("un", "~", x)
    if o == "bin" and t.args[0] in ("&", "|"):
        a, b = canon(t.args[1]), canon(t.args[2])
        if is_mask(a) and is_mask(b):
            return canon(mk("and" if t.args[0] == "&" else "or", (a, b)))
        if t.args[0] == "|":
            # nothing is added to a mask
            for x, y in ((a, b), (b, a)):
                if x.op == "call" and isg(x.args[0], "numpy.zeros", "numpy.zeros_like") and any(
                        k == "dtype" and isg(v, "builtins.bool", "numpy.bool_", "numpy.bool") for k, v in x.args[2]):
                    return y
        return mk("bin", t.args[0], *sorted((a, b), key=lambda z: z.n))
    if o == "len" and t.args[0].op == "attr" and t.args[0].args[1] == "shape":
        return mk("attr", canon(t.args[0].args[0]), "ndim")
    if o == "len":
        return len_of(t.args[0])
    if o == "attr" and t.args[1] in ("shape", "size", "ndim"):
        x = canon(t.args[0])
        while True:
            if x.op in ("upd", "copy"):
                x = x.args[0]
                continue
            a = sole_array(x) if x.op in ("add", "mul", "pw", "abs", "sign") else None
            if a is None:
                sh = literal_shape(x)
                if sh is not None and t.args[1] == "shape":
                    return mk("tuple", sh)
                if sh is not None and t.args[1] == "ndim":
                    return const(len(sh))
                if t.args[1] == "size" and (positions(x) or x.op == "call" and head(x.args[0]) in (
                        "numpy.unique", "numpy.ravel", "numpy.bincount", "numpy.flatnonzero", "numpy.arange", "numpy.linspace", "numpy.setdiff1d", "numpy.union1d") and not any(
                            k == "axis" or k.startswith("return") for k, _ in x.args[2])):
                    return len_of(x)
                return mk("attr", x, t.args[1])
            x = a
    if o == "attr":
        x = canon(t.args[0])
        while x.op == "upd" and named(x.args[1]):
            # an entry of a record, by name
            if x.args[1].args[0] == t.args[1]:
                return x.args[2]
            x = x.args[0]
        if x.op == "call" and isg(x.args[0], "sklearn.utils.Bunch") and not x.args[1]:
            for k, v in x.args[2]:
                if k == t.args[1]:
                    return v
        return mk("attr", x, t.args[1])
    if o == "truthy":
        x = canon(t.args[0])
        if x.op in BOOL_OPS or x.op in ("truthy", "call"):
            return x
        if x.op in ("len", "add", "mul", "pw", "sum", "sq", "sqrt", "abs") or x.op == "bin" and x.args[0] in ("%", "//"):
            return canon(mk("cmp", "!=", x, const(0)))
        if x.op == "const":
            return const(bool(x.args[0]))
        if x.op in ("dict", "list") and is_const(x.args[0], None):
            return const(bool(x.args[1]))
        if x.op == "tuple":
            return const(bool(x.args[0]))
        return mk("truthy", x)
    if o == "ite":
        return ite(canon(t.args[0]), canon(t.args[1]), canon(t.args[2]))
    if o == "cmp":
        op, a, b = t.args
        a, b = canon(a), canon(b)
        if op in (">", ">="):
            op, a, b = {">": "<", ">=": "<="}[op], b, a
        r = fold_cmp(mk("cmp", op, a, b))
        if r.op != "cmp":
            return r
        plain = all(not (x.op == "const" and num(x) is None) and x.op not in ("tuple", "list", "dict", "glob", "slice") for x in (a, b))
        if op in ("<", "<=") and plain:
            d = to_rat(b).add(to_rat(a), -1)
            if d.iszero():
                return const(op == "<=")
            for x in rat_atoms(d):
                # lo <= index < hi
                if x.op == "ix" and is_const(x.args[2], 1):
                    if d.eq(to_rat(x.args[1]).add(rat_atom(x), -1)) or (op == "<=" and d.eq(rat_atom(x).add(to_rat(x.args[0]), -1))):
                        return TRUE
            tt = truth_table(op, d)
            if tt is not None:
                return tt
            return fold_cmp(mk("cmp", op, const(0), from_rat(rat_const(1 / abs(lead(d))).mul(d))))
        if op in ("==", "!="):
            if plain:
                d = to_rat(b).add(to_rat(a), -1)
                if d.iszero():
                    return const(op == "==")
                tt = truth_table(op, d)
                if tt is not None:
                    return tt
                return fold_cmp(mk("cmp", op, const(0), from_rat(rat_const(1 / lead(d)).mul(d))))
            if b.n < a.n:
                a, b = b, a
            return mk("cmp", op, a, b)
        return r
    if o == "not":
        x = canon(t.args[0])
        if x.op == "cmp" and x.args[0] in ("<", "<=") and is_const(x.args[1], 0):
            # not (0 < d)  <=>  0 <= -d   (reals)
            d = rat_const(-1).mul(to_rat(x.args[2]))
            return mk("cmp", "<=" if x.args[0] == "<" else "<", const(0), from_rat(d))
        return neg(x) if x.op != "and" and x.op != "or" else canon(neg(x))
    if o == "and":
        return conj(*sorted((canon(x) for x in t.args[0]), key=lambda z: z.n))
    if o == "or":
        return disj(*sorted((canon(x) for x in t.args[0]), key=lambda z: z.n))
    if o == "call":
        ks = [canon(v) for k, v in t.args[2] if k == "**"]
        if ks and ks[0].op == "tuple" and all(x.op == "dict" and is_const(x.args[0], None) and not x.args[1] for x in ks[0].args[0]):
            return canon(mk("call", *t.args[:2], tuple(p for p in t.args[2] if p[0] != "**")))
        x = seq(t)
        if x is not t and (x.op == "map" or isg(t.args[0], "builtins.list")):
            return canon(x)
        x = as_function(t)
        if x is not t:
            return canon(x)
        h, args, k = norm_call(t)
        if h in ("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like") and len(args) == 1 and not k:
            b = canon(args[0])
            while b.op in ("upd", "copy"):
                b = b.args[0]
            return atom(mk("call", g(h[:-5]), (mk("attr", b, "shape"),), ()))
        if h in ("numpy.zeros", "numpy.ones", "numpy.empty") and len(args) == 1 and args[0].op == "attr" and args[0].args[1] == "shape":
            b = canon(args[0].args[0])
            while b.op in ("upd", "copy"):
                b = b.args[0]
            if b.op == "call" and isg(b.args[0], "numpy.zeros", "numpy.ones", "numpy.empty") and len(b.args[1]) == 1:
                return mk("call", g(h), b.args[1], tuple(sorted((n, canon(v)) for n, v in k.items())))
            return mk("call", g(h), (mk("attr", b, "shape"),), tuple(sorted((n, canon(v)) for n, v in k.items())))
        if h == "numpy.full_like" and len(args) == 1 and set(k) <= {"fill_value", "dtype"} and "fill_value" in k:
            return canon(mk("bin", "*", k["fill_value"], mk("call", g("numpy.ones"), (mk("attr", args[0], "shape"),), ())))
        if h == "numpy.full" and len(args) == 1 and "fill_value" in k and set(k) <= {"fill_value", "dtype"} and (
                "dtype" not in k or isg(k["dtype"], "builtins.float", "numpy.float64")):
            return canon(mk("bin", "*", k["fill_value"], mk("call", g("numpy.ones"), (args[0],), ())))
        if h == "numpy.prod" and len(args) == 1 and not k:
            c = canon(args[0])
            if c.op == "idx" and c.args[0].op == "attr" and c.args[0].args[1] == "shape" and c.args[1].op == "slice":
                lo, hi, st = c.args[1].args
                lo, hi = (0 if is_const(lo, None) else num(lo)), num(hi)
                if isinstance(lo, int) and isinstance(hi, int) and 0 <= lo < hi <= 4 and is_const(st, None):
                    r = const(1)
                    for j in range(lo, hi):
                        r = mk("bin", "*", r, mk("idx", c.args[0], const(j)) if j else mk("len", c.args[0].args[0]))
                    return canon(r)
        if h == "numpy.swapaxes" and len(args) == 3 and not k and all(isinstance(num(x), int) for x in args[1:]):
            return mk("call", g(h), (canon(args[0]),) + tuple(sorted(args[1:], key=num)), ())
        if h in ("builtins.all", "builtins.any", "numpy.all", "numpy.any") and len(args) == 1 and not k:
            c = canon(args[0])
            xs = c.args[0] if c.op == "tuple" else c.args[1] if c.op == "list" and is_const(c.args[0], None) else ()
            if len(xs) == 1 and h.startswith("builtins."):
                return xs[0]
            if xs and all(x.op in BOOL_OPS for x in xs):
                return canon(mk("and" if h.endswith("all") else "or", tuple(xs)))
        if h == "numpy.reshape" and len(args) == 2 and args[1].op == "tuple":
            xs = [canon(x) for x in args[1].args[0]]
            free = [j for j, x in enumerate(xs) if not isinstance(num(x), int)]
            if len(free) == 1 and all(num(x) != -1 for x in xs if isinstance(num(x), int)):
                xs[free[0]] = const(-1)  # the only size the others leave
            return mk("call", g(h), (canon(args[0]), mk("tuple", tuple(xs))), tuple(sorted((n, canon(v)) for n, v in k.items())))
        if h == "~" and len(args) == 1:
            return atom(mk("un", "~", args[0]))
        if h in ("&", "|") and len(args) == 2:
            return atom(mk("bin", h, *args))
        f = g(h) if h is not None and "." in h else canon(t.args[0])
        return mk("call", f, tuple(canon(a) for a in args), tuple(sorted((n, canon(v)) for n, v in k.items())))
    if o == "filt" and is_const(canon(t.args[1]), False):
        return mk("list", NONE, ())
    if o == "filt" and is_const(canon(t.args[1]), True):
        return canon(mk("map", t.args[0], t.args[2]))
    if o == "list" and not t.args[1] and t.args[0].op in ("map", "filt", "mu"):
        return canon(t.args[0])
    if o == "list" and listy(t.args[0]):
        return concat(canon(t.args[0]), canon(mk("list", NONE, t.args[1])))
    if o == "concat":
        return concat(canon(t.args[0]), canon(t.args[1]))
    if o == "tuple" and len(t.args[0]) == 2:
        a, b = (canon(x) for x in t.args[0])
        if a.op == b.op == "idx" and a.args[0] is b.args[0] and is_pair(a.args[0]) and is_const(a.args[1], 0) and is_const(b.args[1], 1):
            return a.args[0]
        return mk("tuple", (a, b))
    if o == "slice":
        lo, hi, st = (canon(x) for x in t.args)
        if is_const(st, 1):
            st = NONE
        if is_const(lo, 0) and (is_const(st, None) or isinstance(num(st), int) and num(st) > 0):
            lo = NONE
        return mk("slice", lo, hi, st)
    if o in ("map", "stack"):
        ix, body = binder(t.args[0]), t.args[1]
        b = canon(body)
        n = num(ix.args[1]) if ix.op == "ix" and is_const(ix.args[2], 1) else None
        if isinstance(n, int) and 0 < n <= 4:
            return canon(mk("list", NONE, tuple(subst(body, {t.args[0].n: const(j)} if is_const(t.args[0].args[0], 0) else {
                t.args[0].n: mk("bin", "+", t.args[0].args[0], const(j))}) for j in range(n))))
        # eta: map(ix, X[ix + lo]) == X[lo:]
        if b.op == "idx" and not depends(b.args[0], ix) and (b.args[1] is ix or b.args[1].op == "add" and ix.op == "ix"):
            off = to_rat(b.args[1]).add(rat_atom(ix), -1)
            k = num(from_rat(off))
            if isinstance(k, int) and k >= 0:
                hi = from_rat(off.add(to_rat(ix.args[1]))) if ix.op == "ix" else None
                if hi is None or plain_size(hi):
                    return b.args[0] if k == 0 else canon(mk("idx", b.args[0], mk("slice", const(k), NONE, NONE)))
                for c in (-1, -2):
                    if plain_size(from_rat(to_rat(hi).add(rat_const(-c)))):
                        return canon(mk("idx", b.args[0], mk("slice", const(k), const(c), NONE)))
        return mk("map", ix, b)
    return rebuild(t, canon)


def as_bool(x):
    """the elementwise condition a 0/1 value is made of, or None"""
    if x.op == "cmp":
        return x
    if x.op == "tr":
        y = as_bool(x.args[0])
        return None if y is None else mk("tr", y)
    if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "astype" and len(x.args[1]) == 1 and isg(
            x.args[1][0], "builtins.int", "builtins.float", "numpy.int64", "numpy.float64"):
        return as_bool(x.args[0].args[0])
    return None


def is_mask(x):
    return x.op in BOOL_OPS or x.op == "tr" and is_mask(x.args[0])


class NotBool(Exception):
    pass


def bits(t, out):
    """the elementwise conditions  t  is computed from; NotBool when it is computed from anything else"""
    b = as_bool(t)
    if b is not None and not (b.op == "cmp" and bits_in(b)):
        if b not in out:
            out.append(b)
        return
    if t.op in ("cmp",):
        bits(t.args[1], out)
        bits(t.args[2], out)
    elif t.op == "not":
        bits(t.args[0], out)
    elif t.op in ("and", "or"):
        for x in t.args[0]:
            bits(x, out)
    elif t.op == "upd" and len(t.args) == 3:
        for x in t.args:
            bits(x, out)
    elif t.op == "const" and num(t) is not None:
        return
    elif t.op in ("add", "mul"):
        for x in rat_atoms(to_rat(t)):
            bits(x, out)
    else:
        raise NotBool


def bits_in(c):
    """a comparison of 0/1 values"""
    try:
        out = []
        for x in c.args[1:]:
            bits(x, out)
        return bool(out)
    except NotBool:
        return False


def bit_value(t, v):
    b = as_bool(t)
    if b is not None and b.n in v:
        return Fraction(v[b.n])
    if t.op == "cmp":
        a, b = bit_value(t.args[1], v), bit_value(t.args[2], v)
        return Fraction({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b}[t.args[0]])
    if t.op == "not":
        return 1 - bit_value(t.args[0], v)
    if t.op in ("and", "or"):
        return Fraction((all if t.op == "and" else any)([bit_value(x, v) for x in t.args[0]]))
    if t.op == "upd":
        return bit_value(t.args[2 if bit_value(t.args[1], v) else 0], v)
    if t.op == "const":
        return Fraction(num(t))
    r = to_rat(t)
    if r.d != p_const(1):
        raise NotBool
    at = {x.n: x for x in rat_atoms(r)}
    s = Fraction(0)
    for m, c in r.n.items():
        for a, e in m:
            if e < 0:
                raise NotBool
            c = c * bit_value(at[a], v) ** e
        s += c
    return s


def truth_table(op, d):
    """0 op d  for d made of at most three elementwise conditions, as a boolean combination of them"""
    if d.d != p_const(1):
        return None
    at = []
    try:
        for x in rat_atoms(d):
            bits(x, at)
        if not 1 <= len(at) <= 3:
            return None
        if op in ("<", "<=") and len(d.n) == 1 and all(len(m) <= 1 for m in d.n):
            return None
        at = sorted(at, key=lambda z: z.n)
        terms, others = [], []
        for k in range(2 ** len(at)):
            v = {x.n: k >> j & 1 for j, x in enumerate(at)}
            s = bit_value(from_rat(d), v)
            ok = {"==": s == 0, "!=": s != 0, "<": 0 < s, "<=": 0 <= s}[op]
            x = mk("and", tuple(x if v[x.n] else neg(x) for x in at)) if len(at) > 1 else at[0] if v[at[0].n] else neg(at[0])
            (terms if ok else others).append(x)
    except (NotBool, KeyError):
        return None
    if not terms:
        return FALSE
    if not others:
        return TRUE
    if len(others) < len(terms):
        return canon(mk("not", mk("or", tuple(others)) if len(others) > 1 else others[0]))
    return canon(mk("or", tuple(terms)) if len(terms) > 1 else terms[0])


def sole_array(c):
    """the only array an elementwise expression is made of"""
    found = set()

    def go(t):
        for a in rat_atoms(to_rat(t)):
            if is_scalar(a):
                continue
            if a.op in ("abs", "sign", "sqrt"):
                go(a.args[0])
            elif a.op == "cmp" and is_const(a.args[1], 0):
                go(a.args[2])
            else:
                found.add(a)
    try:
        go(c)
    except Overflow:
        return None
    return found.pop() if len(found) == 1 and c not in found else None


LEN_LIKE = ("numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple", "numpy.copy", "numpy.zeros_like", "numpy.empty_like", "numpy.ones_like",
            "numpy.full_like", "builtins.sorted", "builtins.reversed", "numpy.abs", "numpy.sign", "numpy.sqrt", "numpy.exp", "numpy.log", "numpy.square")
LEN_SHAPE = ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full")


def plain_size(x):
    return x.op == "len" or x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" or x.op == "param"


def literal_shape(x):
    """shape of an array allocated with a literal tuple as its shape"""
    if x.op == "call" and x.args[1] and head(x.args[0]) in LEN_SHAPE:
        s = x.args[1][0]
        if s.op == "tuple":
            return s.args[0]
        if s.op == "list" and is_const(s.args[0], None):
            return s.args[1]
    return None


def from_here(lo):
    """a counter that starts at 0, plus a constant"""
    lo = canon(lo)
    if lo.op == "ix":
        return is_const(lo.args[0], 0) and is_const(lo.args[2], 1)
    if lo.op != "add" or len(lo.args) != 2:
        return False
    xs = [x for x in lo.args if not (isinstance(num(x), int) and num(x) >= 0)]
    return len(xs) == 1 and xs[0].op == "ix" and from_here(xs[0])


def positions(x):
    return x.op == "idx" and isinstance(num(x.args[1]), int) and x.args[0].op == "call" and head(x.args[0].args[0]) in ("numpy.where", "numpy.nonzero") and \
        len(x.args[0].args[1]) == 1 and not x.args[0].args[2]


def len_of(x):
    """number of elements along the first axis"""
    if x.op == "call" and head(x.args[0]) == "numpy.bincount" and len(x.args[1]) == 1 and not x.args[2] and x.args[1][0].op == "idx" and is_const(x.args[1][0].args[1], 1):
        u = x.args[1][0].args[0]
        if u.op == "call" and head(u.args[0]) == "numpy.unique" and [k for k, v in u.args[2] if is_const(v, True)] == ["return_inverse"]:
            return canon(mk("len", mk("idx", u, const(0))))
    while True:
        if x.op in ("upd", "copy"):
            x = x.args[0]
            continue
        if x.op == "tuple":
            return const(len(x.args[0]))
        if x.op == "list" and is_const(x.args[0], None):
            return const(len(x.args[1]))
        if x.op in ("map", "stack") and x.args[0].op == "ix" and is_const(x.args[0].args[2], 1):
            return canon(mk("bin", "-", x.args[0].args[1], x.args[0].args[0]))
        if x.op == "concat":
            return canon(mk("bin", "+", mk("len", x.args[0]), mk("len", x.args[1])))
        if x.op == "range" and is_const(x.args[2], 1):
            return canon(mk("bin", "-", x.args[1], x.args[0]))
        if x.op == "attr" and x.args[1] == "shape":
            return mk("attr", canon(x.args[0]), "ndim")
        if x.op == "un" and x.args[0] == "-":
            x = x.args[1]
            continue
        if x.op == "call" and x.args[1]:
            h = head(x.args[0])
            if h in LEN_LIKE:
                x = x.args[1][0]
                continue
            if h in LEN_SHAPE and x.args[1][0].op in ("tuple", "list"):
                sh = x.args[1][0].args[0] if x.args[1][0].op == "tuple" else x.args[1][0].args[1]
                if sh:
                    return canon(sh[0])
            if h == "numpy.reshape" and len(x.args[1]) == 2 and not x.args[2] and x.args[1][1].op == "tuple" and x.args[1][1].args[0] and num(x.args[1][1].args[0][0]) != -1:
                return canon(x.args[1][1].args[0][0])
        if x.op == "idx" and x.args[1].op == "slice" and is_const(x.args[1].args[2], None):
            lo, hi = x.args[1].args[:2]
            if from_here(lo) and is_const(hi, None):
                return canon(mk("bin", "-", mk("len", x.args[0]), lo))
            a, b = (0 if is_const(lo, None) else num(lo)), (0 if is_const(hi, None) else num(hi))
            if isinstance(a, int) and isinstance(b, int) and a >= 0 and b <= 0:
                return canon(mk("bin", "-", mk("len", x.args[0]), const(a - b)))
        c = canon(x)
        if c is not x and c.op in ("upd", "copy", "tuple", "list", "map", "range", "concat"):
            x = c
            continue
        if c.op in ("add", "mul", "pw", "abs", "sign"):
            a = sole_array(c)
            if a is not None:
                x = a
                continue
        if c.op == "idx":
            # rows picked by a mask
            i = c.args[1]
            if i.op == "tuple" and i.args[0]:
                picked = [z for z in i.args[0] if not isinstance(num(z), int)]
                while len(picked) > 1 and picked[-1].op == "slice":
                    picked.pop()
                if len(picked) == 1 and (i.args[0][-1] is picked[0] or i.args[0][0] is picked[0] and picked[0].op == "cmp"):
                    i = picked[0]
            if i.op == "cmp":
                return canon(mk("call", mk("glob", "ext", "numpy.sum"), (i,), ()))
            if positions(c):
                # number of positions at which a condition holds
                return canon(mk("call", mk("glob", "ext", "numpy.count_nonzero"), c.args[0].args[1], ()))
        n = stack_len(c)
        return mk("len", c) if n is None else n


SAME_SHAPE = {"regain.prox.soft_thresholding", "regain.prox.soft_thresholding_od", "regain.prox.prox_logdet", "regain.prox.prox_laplacian",
              "regain.prox.prox_trace_indicator"}
STACKS = {"emp_cov", "S", "emp_inv_score"}


def stack_len(c):
    """length of a stack of matrices computed from the input stack by arithmetic and shape-preserving operators"""
    found = set()

    def go(a):
        if a.op == "param" and (a.args[0] == "arr" or a.args[1] in STACKS):
            found.add(mk("len", a))
        elif a.op == "tr":
            go(a.args[0])
        elif a.op == "map":
            found.add(len_of(a))
        elif a.op == "call" and a.args[0].op == "glob" and a.args[0].args[1] in SAME_SHAPE:
            x = dict(a.args[2]).get("a") or (a.args[1][0] if a.args[1] else None)
            if x is not None:
                go(x)
        elif a.op in ("add", "mul", "pw"):
            for b in rat_atoms(to_rat(a)):
                if not is_scalar(b) and b is not a:
                    go(b)
    try:
        go(c)
    except Overflow:
        return None
    return found.pop() if len(found) == 1 else None


def linear_in_mu(t, uid):
    """t == mu + rest with rest free of this loop's mu's -> (mu, rest term)"""
    mus = [x for x in walk(t) if x.op == "mu" and x.args[0] == uid]
    if len(mus) != 1:
        return None
    m = mus[0]
    # fast structural path: ((mu + a) + b) ...
    try:
        r = to_rat(t)
    except Overflow:
        return None
    r2 = r.add(rat_atom(m), -1)
    rest = from_rat(r2)
    if any(x is m for x in walk(rest)):
        return None
    return m, rest


def equal(a, b):
    try:
        return to_rat(a).add(to_rat(b), -1).iszero() or canon(a) is canon(b)
    except Overflow:
        return canon(a) is canon(b)


def coef(r, a):
    """For Rat r with polynomial numerator: (coefficient Rat of atom a when linear, rest) or None."""
    cn, rest = {}, {}
    for m, c in r.n.items():
        d = dict(m)
        e = d.get(a.n, 0)
        if e == 0:
            rest[m] = c
        elif e == 1:
            mm = tuple((k, x) for k, x in m if k != a.n)
            cn[mm] = c
        else:
            return None
    if any(k == a.n for m in r.d for k, _ in m):
        return None
    return Rat(cn, r.d), Rat(rest, r.d)
