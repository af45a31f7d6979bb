"""Row-wise comparison of expressions built from slices, boundary updates and per-index maps of stacks.

Each side is evaluated symbolically at the first rows (L0..), at the last rows (R1 = last, ..) and at a generic interior row (M);
two stacks are the same, for all long enough stacks, iff every such row is."""
from .terms import *
from .algebra import canon, head, is_scalar, equal

DEPTH = 4
POINTWISE = {"add", "mul", "pw", "div", "abs", "sign", "sqrt", "bin", "un", "cmp"}


class NotRows(Exception):
    pass


def pos(kind, k):
    return mk("free", "row" + kind, k)


def is_pos(t):
    return t.op == "free" and isinstance(t.args[0], str) and t.args[0].startswith("row")


def shift(p, d):
    kind, k = p.args[0][3], p.args[1]
    return pos(kind, k - d if kind == "R" else k + d)


def bound(t):
    """slice bound -> (side, offset): ('L', a) counts from the start, ('R', b) from the end, None open"""
    if is_const(t, None):
        return None
    v = num(t)
    if isinstance(v, int):
        return ("L", v) if v >= 0 else ("R", -v)
    c = canon(t)
    if c.op == "len":
        return ("R", 0)
    if c.op == "add" and len(c.args) == 2:
        a, b = c.args
        for x, y in ((a, b), (b, a)):
            if isinstance(num(x), int) and y.op == "len" and num(x) < 0:
                return ("R", -num(x))
    raise NotRows()


def span(s):
    if s.op != "slice" or not is_const(s.args[2], None) and num(s.args[2]) != 1:
        raise NotRows()
    lo, hi = bound(s.args[0]), bound(s.args[1])
    lo = 0 if lo is None else lo[1] if lo[0] == "L" else None
    hi = 0 if hi is None else hi[1] if hi[0] == "R" else None
    if lo is None or hi is None:
        raise NotRows()
    return lo, hi


def inside(p, lo, hi):
    kind, k = p.args[0][3], p.args[1]
    return k >= lo if kind == "L" else k > hi if kind == "R" else True


def down(p, lo, hi):
    """position in an array -> position in the part of it that starts lo after its start and ends hi before its end"""
    kind, k = p.args[0][3], p.args[1]
    return pos(kind, k - lo if kind != "R" else k - hi)


def up(p, lo, hi):
    kind, k = p.args[0][3], p.args[1]
    return pos(kind, k + lo if kind != "R" else k + hi)


def hits(p, i):
    """does a constant index denote this row"""
    v = num(i)
    kind, k = p.args[0][3], p.args[1]
    if not isinstance(v, int):
        raise NotRows()
    if v >= 0:
        return kind == "L" and k == v
    return kind == "R" and k == -v


def leaf(t, p):
    kind, k = p.args[0][3], p.args[1]
    if kind == "M":
        return mk("idx", t, p)
    if kind == "L" and k >= 0 or kind == "R" and k > 0:
        return mk("idx", t, const(k if kind == "L" else -k))
    raise NotRows()


def row(t, p):
    if is_scalar(t) or t.op in ("const", "fr"):
        return t
    if t.op in POINTWISE:
        return rebuild(t, lambda c: row(c, p))
    if t.op == "idx":
        a, i = t.args
        if i.op == "slice":
            lo, hi = span(i)
            return row(a, up(p, lo, hi))
        if i.op == "tuple" and i.args[0] and i.args[0][0].op == "slice":
            return leaf(t, p)
        return leaf(t, p)
    if t.op == "emb":
        lo, hi = span(t.args[0])
        return row(t.args[1], down(p, lo, hi)) if inside(p, lo, hi) else const(0)
    if t.op == "upd":
        b, i, v = t.args
        if i.op == "slice":
            lo, hi = span(i)
            return row(v, down(p, lo, hi)) if inside(p, lo, hi) else row(b, p)
        return v if hits(p, i) else row(b, p)
    if t.op == "map":
        ix, body = t.args
        if ix.op != "ix" or num(ix.args[2]) != 1:
            raise NotRows()
        lo, hi = bound(ix.args[0]), bound(ix.args[1])
        if lo is None or lo[0] != "L":
            raise NotRows()
        # rows of the stack are counted from the ends of the result: the index is that row of the index range
        if hi is None or hi[0] != "R":
            raise NotRows()
        return at(body, ix, up(p, lo[1], hi[1]))
    if t.op == "call" and head(t.args[0]) in ("numpy.zeros", "numpy.zeros_like"):
        return const(0)
    if t.op == "call" and head(t.args[0]) in ("numpy.empty", "numpy.empty_like"):
        return leaf(mk("free", "unset"), p)
    if t.op in ("param", "mu", "bx", "attr", "call", "tr"):
        if t.op == "tr":
            return mk("tr", row(t.args[0], p))
        return leaf(t, p)
    raise NotRows()


def at(t, ix, p):
    """a map's body at a row: every index ix + c becomes a row"""
    if t is ix:
        raise NotRows()
    if t.op == "idx":
        i = t.args[1]
        d = None
        if i is ix:
            d = 0
        elif i.op == "add" and len(i.args) == 2 and ix in i.args:
            o = i.args[0] if i.args[1] is ix else i.args[1]
            d = num(o) if isinstance(num(o), int) else None
            if d is None:
                raise NotRows()
        if d is not None:
            return row(t.args[0], shift(p, d))
    if not any(x is ix for x in walk(t)):
        return t
    return rebuild(t, lambda c: at(c, ix, p))


def relevant(t):
    return any(x.op in ("emb", "upd") or x.op == "idx" and x.args[1].op == "slice" or
               x.op == "map" and x.args[0].op == "ix" and not is_const(x.args[0].args[0], 0) for x in walk(t))


def same_rows(l, r):
    """True / False / None (not of this form)"""
    if not (relevant(l) and relevant(r)) and not (l.op == "map" or r.op == "map"):
        return None
    if not (relevant(l) or relevant(r)):
        return None
    try:
        for p in [pos("L", j) for j in range(DEPTH)] + [pos("M", 0)] + [pos("R", j + 1) for j in range(DEPTH)]:
            a, b = canon(row(l, p)), canon(row(r, p))
            if a is not b and not equal(a, b):
                return False
    except NotRows:
        return None
    return True
