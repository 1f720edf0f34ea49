"""Hash-consed value terms and the abstract state of the dataflow engine."""

import os
from datetime import timedelta

VOLATILE = ("fresh", "phi", "prev", "lost", "st")


class Term(timedelta):
    """A timedelta for its hash only: made from the number of the term, so that sets have the same order in every run, and computed in C."""
    __slots__ = ("op", "a", "atoms", "roots", "id")

    def __repr__(self):
        return show(self)

    __str__ = __repr__


_table = {}
_salt = int(os.environ.get("LJ_SALT", "0"))    # another number tries another order
_EMPTY = frozenset()


def T(op, *a):
    key = (op,) + a
    t = _table.get(key)
    if t is not None:
        return t
    t = Term(_salt, 0, len(_table) + 1)
    t.op = op
    t.a = a
    t.id = len(_table)
    atoms = _EMPTY
    roots = _EMPTY
    stack = list(a)
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x.atoms:
                atoms = atoms | x.atoms if atoms else x.atoms
            if x.roots:
                roots = roots | x.roots if roots else x.roots
        elif isinstance(x, tuple) and op != "phi":
            stack.extend(x)
    if op in VOLATILE:
        atoms = frozenset([t])
        roots = _EMPTY
    elif op in ("L", "N", "E", "P"):
        roots = roots | frozenset([t])
    t.atoms = atoms
    t.roots = roots
    _table[key] = t
    return t


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if d > 7:
        return "…"
    o, a = t.op, t.a
    if o in ("int", "bool", "char"):
        return str(a[0])
    if o == "str":
        return '"%s"' % a[0]
    if o == "sym":
        return "$%s" % a[0]
    if o == "ref":
        return "&%s%s" % (show(a[0], d + 1), "".join(".%s" % (p[1] if len(p) > 1 else "?",) for p in a[1]))
    if o == "agg":
        return "%s#%s(%s)" % (a[0].split("::")[-1], a[1], ",".join(show(x, d + 1) for x in a[2]))
    if o == "tup":
        return "(%s)" % ",".join(show(x, d + 1) for x in a[0])
    if o == "fresh":
        return "?%s_%s%s" % (a[0], a[1], "" if not a[2] else "_" + str(a[2]))
    if o == "phi":
        return "φ%s_%s[%d]" % (a[0], a[1], t.id)
    if o == "lin":
        return "%s%+d" % (show(a[0], d + 1), a[1])
    if o == "fld":
        return "%s.%s" % (show(a[0], d + 1), "%s.%s" % (a[1], a[2]))
    if o == "closure":
        return "λ%s" % a[0].split("::")[-2:]
    return "%s(%s)" % (o, ",".join(show(x, d + 1) for x in a))


UNIT = T("tup", ())
TRUE = T("bool", True)
FALSE = T("bool", False)
ZERO = T("int", 0)

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
ORD = "core::cmp::Ordering"


def agg(key, variant, fields):
    return T("agg", key, variant, tuple(fields))


def some(x):
    return agg(OPT, 1, (x,))


NONE = agg(OPT, 0, ())


def ok(x):
    return agg(RES, 0, (x,))


def err(x):
    return agg(RES, 1, (x,))


def tup(*xs):
    return T("tup", tuple(xs))


def const_int(n):
    return T("int", n)


def split_lin(t):
    if t.op == "int":
        return ZERO, t.a[0]
    if t.op == "lin":
        return t.a[0], t.a[1]
    return t, 0


def lin(base, k):
    if base is ZERO or (base.op == "int" and base.a[0] == 0):
        return T("int", k)
    if base.op == "int":
        return T("int", base.a[0] + k)
    if base.op == "lin":
        return lin(base.a[0], base.a[1] + k)
    if k == 0:
        return base
    return T("lin", base, k)


def add(a, b):
    ab, ak = split_lin(a)
    bb, bk = split_lin(b)
    if bb is ZERO:
        return lin(ab, ak + bk)
    if ab is ZERO:
        return lin(bb, ak + bk)
    # (x - y) + y = x
    if ab.op == "sub" and ab.a[1] is bb:
        return lin(ab.a[0], ak + bk)
    if bb.op == "sub" and bb.a[1] is ab:
        return lin(bb.a[0], ak + bk)
    x, y = (ab, bb) if ab.id <= bb.id else (bb, ab)
    return lin(T("add", x, y), ak + bk)


def sub(a, b):
    ab, ak = split_lin(a)
    bb, bk = split_lin(b)
    if ab is bb:
        return T("int", ak - bk)
    if bb is ZERO:
        return lin(ab, ak - bk)
    if ab.op == "add":
        if ab.a[0] is bb:
            return lin(ab.a[1], ak - bk)
        if ab.a[1] is bb:
            return lin(ab.a[0], ak - bk)
    return lin(T("sub", ab, bb), ak - bk)


def lt(a, b):
    """a < b  as  base(a) - base(b) < c"""
    ab, ak = split_lin(a)
    bb, bk = split_lin(b)
    c = bk - ak
    if ab is bb:
        return TRUE if 0 < c else FALSE
    return T("lt", ab, bb, c)


def ieq(a, b):
    ab, ak = split_lin(a)
    bb, bk = split_lin(b)
    c = bk - ak
    if ab is bb:
        return TRUE if c == 0 else FALSE
    if ab.id > bb.id:
        ab, bb, c = bb, ab, -c
    return T("ieq", ab, bb, c)


def neg(t):
    if t.op == "bool":
        return FALSE if t.a[0] else TRUE
    if t.op == "not":
        return t.a[0]
    return T("not", t)


_CONSTOPS = ("int", "str", "bool", "char", "bytes")


def is_const(t):
    return t.op in _CONSTOPS


def eqv(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if a is b else FALSE
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a[2]) == 0:
            return TRUE
    if a.id > b.id:
        a, b = b, a
    return T("eqv", a, b)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def subst(t, m, memo):
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, Term):
        return t
    if not t.atoms or t.atoms.isdisjoint(m):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    else:
        na = tuple(subst(x, m, memo) for x in t.a)
        r = rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "lin":
        return lin(a[0], a[1])
    return T(op, *a)


class St(object):
    __slots__ = ("mem", "facts", "dirty", "sv", "ps")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.dirty = {}   # (gid, kind, classpath) -> stamp
        self.sv = {}      # (gid, kind) -> stamp
        self.ps = None

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.dirty = dict(self.dirty)
        s.sv = dict(self.sv)
        s.ps = self.ps
        return s
