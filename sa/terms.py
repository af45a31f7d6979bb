"""Hash-consed value-graph terms and the pointwise rational normal form used to compare them.

A term is one node of the gated-SSA value graph of a function: parameters, constants, calls,
pointwise arithmetic, gated merges (ite), loop-header values (mu), indexing, functional updates.
`canon` maps a term to a canonical representative: arithmetic is normalised to a rational
function over atoms (exact, by polynomial cross-multiplication), slicing/transposition is pushed
to the atoms, norms are expressed through squared norms, copies and broadcasts are erased."""
from fractions import Fraction
import itertools

_table = {}
_nodes = []


class T:
    __slots__ = ("op", "args", "n")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


def _key(a):
    if isinstance(a, T):
        return a.n
    if isinstance(a, tuple):
        return ("t",) + tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.n = op, args, len(_nodes)
        _table[k] = t
        _nodes.append(t)
    return t


def const(v):
    return mk("const", v)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(t, *vals):
    return t.op == "const" and (not vals or any(t.args[0] is v or (type(t.args[0]) is type(v) and t.args[0] == v) for v in vals))


def num(t):
    if t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
        return t.args[0]
    return None


def children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _tc(a)


def _tc(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tc(x)


def rebuild(t, f):
    """Apply f to every direct child term."""
    def g(a):
        if isinstance(a, T):
            return f(a)
        if isinstance(a, tuple):
            return tuple(g(x) for x in a)
        return a
    new = tuple(g(a) for a in t.args)
    return mk(t.op, *new)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.n in seen:
            continue
        seen.add(x.n)
        yield x
        stack.extend(children(x))


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 14:
        return "..."
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == "const":
        return repr(a[0])
    if o in ("param", "self0"):
        return a[-1] if o == "param" else "self." + a[-1]
    if o == "glob":
        return a[1].split(".")[-1]
    if o == "bin":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "un":
        return "(%s%s)" % (a[0], s(a[1]))
    if o == "cmp":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "call":
        return "%s(%s)" % (s(a[0]), ", ".join([s(x) for x in a[1]] + ["%s=%s" % (k, s(v)) for k, v in a[2]]))
    if o == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "slice":
        return "%s:%s%s" % ("" if is_const(a[0], None) else s(a[0]), "" if is_const(a[1], None) else s(a[1]),
                            "" if is_const(a[2], None) else ":" + s(a[2]))
    if o == "mu":
        return "%s'" % (a[1],)
    if o == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if o == "not":
        return "not %s" % s(a[0])
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(s(x) for x in a[0]) + ")"
    if o == "tr":
        return s(a[0]) + "^T"
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


# ------------------------------------------------------------------------ boolean helpers
def neg(c):
    if c.op == "const":
        return const(not c.args[0])
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return disj(*[neg(x) for x in c.args[0]])
    if c.op == "or":
        return conj(*[neg(x) for x in c.args[0]])
    if c.op == "cmp":
        inv = {"is": "is not", "is not": "is", "==": "!=", "!=": "==", "in": "not in", "not in": "in"}
        if c.args[0] in inv:
            return mk("cmp", inv[c.args[0]], *c.args[1:])
    return mk("not", c)


def conj(*cs):
    out = []
    for c in cs:
        if c.op == "and":
            for x in c.args[0]:
                if x not in out:
                    out.append(x)
        elif is_const(c, True):
            continue
        elif is_const(c, False):
            return FALSE
        elif c not in out:
            out.append(c)
    for c in out:
        if neg1(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out))


def neg1(c):
    """negation without De Morgan (cheap complement test)"""
    if c.op == "not":
        return c.args[0]
    if c.op == "cmp":
        return neg(c)
    return mk("not", c)


def disj(*cs):
    out = []
    for c in cs:
        if c.op == "or":
            for x in c.args[0]:
                if x not in out:
                    out.append(x)
        elif is_const(c, False):
            continue
        elif is_const(c, True):
            return TRUE
        elif c not in out:
            out.append(c)
    for c in out:
        if neg1(c) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out))


def ite(c, a, b):
    if a is b:
        return a
    if c.op == "const":
        return a if c.args[0] else b
    if is_const(a, True) and is_const(b, False):
        return c
    if is_const(a, False) and is_const(b, True):
        return neg(c)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


def subst(t, m, memo=None):
    """Replace terms by mapping (n -> T), re-simplifying boolean/ite structure."""
    memo = {} if memo is None else memo

    def go(x):
        if x.n in m:
            return m[x.n]
        if x.n in memo:
            return memo[x.n]
        r = rebuild(x, go)
        if r.op == "ite":
            r = ite(*r.args)
        elif r.op == "not":
            r = neg(r.args[0])
        elif r.op == "and":
            r = conj(*r.args[0])
        elif r.op == "or":
            r = disj(*r.args[0])
        elif r.op == "cmp":
            r = fold_cmp(r)
        memo[x.n] = r
        return r
    return go(t)


def fold_cmp(t):
    op, a, b = t.args
    if a.op == "const" and b.op == "const":
        x, y = a.args[0], b.args[0]
        try:
            if op == "==":
                return const(x == y)
            if op == "!=":
                return const(x != y)
            if op == "is":
                return const(x is y)
            if op == "is not":
                return const(x is not y)
            if op == "<":
                return const(x < y)
            if op == "<=":
                return const(x <= y)
            if op == ">":
                return const(x > y)
            if op == ">=":
                return const(x >= y)
            if op == "in":
                return const(x in y)
            if op == "not in":
                return const(x not in y)
        except Exception:
            pass
    if op in ("is", "is not") and (is_const(a, None) or is_const(b, None)):
        o = b if is_const(a, None) else a
        if o.op == "ite":
            x, y = (fold_cmp(mk("cmp", op, z, NONE)) for z in o.args[1:])
            if x.op == "const" or y.op == "const":
                c = o.args[0]
                return disj(conj(c, x), conj(neg(c), y))
        if o.op == "call" and o.args[0].op == "glob" and o.args[0].args[0] == "ext" and o.args[0].args[1].startswith(("numpy.", "scipy.", "networkx.", "sklearn.datasets.", "sklearn.utils.check_")) \
                and not o.args[0].args[1].endswith((".seed", ".shuffle", ".save", ".savetxt", ".savez", ".get")):
            return const(op == "is not")
        if o.op in ("tuple", "list", "dict", "fn", "glob", "clo", "bin", "map", "upd", "obj", "range", "lam", "partial",
                    "fstr", "rsum", "tr", "slice", "rec") or (o.op == "const" and o.args[0] is not None):
            return const(op == "is not")
    return t


# --------------------------------------------------------------- polynomials / rationals
class Poly(dict):
    """monomial (sorted tuple of (atom n, exp)) -> Fraction"""


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def p_mul(a, b):
    if len(a) * len(b) > 4000:
        raise Overflow()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


class Overflow(Exception):
    pass


class Rat:
    """num/den; denominators are kept factored only by monomial content."""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        d = p_const(1) if d is None else d
        if len(d) == 1:
            (m, c), = d.items()
            inv = tuple((k, -e) for k, e in m)
            n = {m_mul(mm, inv): cc / c for mm, cc in n.items()}
            d = p_const(1)
        elif n:
            # cancel common denominators up to a scalar: n = c*d
            m0 = max(d)
            if m0 in n and len(n) == len(d):
                r = n[m0] / d[m0]
                if all(n.get(m) == r * c for m, c in d.items()):
                    n, d = p_const(r), p_const(1)
        self.n, self.d = n, d

    def add(self, o, s=1):
        if self.d == o.d:
            return Rat(p_add(self.n, o.n, s), self.d)
        return Rat(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d), s), p_mul(self.d, o.d))

    def mul(self, o):
        return Rat(p_mul(self.n, o.n), p_mul(self.d, o.d))

    def inv(self):
        return Rat(self.d, self.n)

    def iszero(self):
        return not self.n

    def eq(self, o):
        return self.add(o, -1).iszero()

    def isconst(self):
        return self.d == p_const(1) and all(m == () for m in self.n)

    def constval(self):
        return self.n.get((), Fraction(0))


def by_n(n):
    return _nodes[n]


def rat_const(c):
    return Rat(p_const(c))


def rat_atom(t):
    return Rat({((t.n, 1),): Fraction(1)})
