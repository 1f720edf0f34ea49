"""Transfer functions for the library calls the analysed program makes."""
import re
from terms import *
from terms import _EMPTY

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


class _All(object):
    def __contains__(self, x):
        return True


PREFER_BODY = _All()

_short_memo = {}


def short(path):
    r = _short_memo.get(path)
    if r is not None:
        return r
    p = path
    m = re.match(r"^<(.*) as (.*)>::([\w]+)$", p)
    if m:
        tr = strip_gen(m.group(2))
        r = tr.split("::")[-1] + "::" + m.group(3)
    else:
        m = re.match(r"^(.*)<impl (.*?)>::(\w+)$", p)
        if m:
            inner = m.group(2)
            m2 = re.match(r"^(.*) for (.*)$", inner)
            if m2:
                r = strip_gen(m2.group(1)).split("::")[-1] + "::" + m.group(3)
            else:
                t = inner.strip()
                if t.startswith("["):
                    t = "slice"
                r = strip_gen(t).split("::")[-1] + "::" + m.group(3)
        else:
            p = strip_gen(p)
            parts = [x for x in p.split("::") if x]
            r = "::".join(parts[-2:])
    _short_memo[path] = r
    return r


def strip_gen(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and not (i and s[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("::::", "::").strip(": ")


# ------------------------------------------------------------------ small helpers
def app(name, *a):
    return T("app", name, *a)


def cases(e, st, v, key, fr=None, line=0):
    """split an Option/Result-like value: list of (discriminant, payload, state)"""
    if v.op == "agg":
        if key == RES and v.a[0] == RES and v.a[1] == 1 and fr is not None:
            e.h.on_fail(e, st, v, fr, line)
        return [(e.discr_of_variant(v.a[0], v.a[1]), v.a[2][0] if v.a[2] else None, st)]
    out = []
    if key == RES:
        e.dsckey.setdefault(v, RES)
    d = e.discr(st, v)
    ds = (d,) if d is not None else (0, 1)
    for x in ds:
        s = st.copy() if len(ds) > 1 else st
        if e.set_discr(s, v, x, fr, line):
            out.append((x, e.proj(v, ("f", x, 0)), s))
    return out


def optres(c):
    p = c.info["path"]
    return RES if "result::Result" in p else OPT


def okv(key):
    return 1 if key == OPT else 0


def mk(key, good, x):
    if key == OPT:
        return some(x) if good else NONE
    return ok(x) if good else err(x)


def argv(c, st, i):
    return c.e.val(st, c.args[i])


def ty_str(c, i):
    t = c.atys[i] if i < len(c.atys) else None
    return t["s"] if t else ""


def strip_ref(s):
    while s.startswith("&"):
        s = re.sub(r"^&('\w+ )?(mut )?", "", s)
    return s


# ------------------------------------------------------------------ engine interface
def elem_at(e, t, idx):
    if t.op == "arr" and idx.op == "int" and idx.a[0] < len(t.a[0]):
        return t.a[0][idx.a[0]]
    return T("at", t, idx)


def set_elem(e, st, v, idx, new):
    if v.op == "arr" and idx.op == "int" and idx.a[0] < len(v.a[0]):
        l = list(v.a[0])
        l[idx.a[0]] = new
        return T("arr", tuple(l))
    if v.op == "cv":
        return cv_add(e, v, new, "set")
    return T("updix", v)


def length(e, st, v):
    v = e.val(st, v)
    if v.op == "str":
        return T("int", len(v.a[0].encode("utf-8")))
    if v.op == "arr":
        return T("int", len(v.a[0]))
    return T("len", v)


def on_discr(e, st, v, d):
    f = getattr(e.h, "on_discr", None)
    if f is not None:
        f(e, st, v, d)


def on_bool(e, st, t, truth):
    if t.op == "eqv" and truth:
        a, b = t.a
        # propagate a known variant across an equality
        for x, y in ((a, b), (b, a)):
            if x.op == "agg":
                d = e.discr_of_variant(x.a[0], x.a[1])
                if y.op != "agg" and not e.set_discr(st, y, d):
                    return False
                for i, fx in enumerate(x.a[2]):
                    if y.op == "agg":
                        if i < len(y.a[2]) and not e.assume1(st, eqv(fx, y.a[2][i]), True):
                            return False
    f = getattr(e.h, "on_bool", None)
    if f is not None:
        r = f(e, st, t, truth)
        if r is False:
            return False
    return True


def two_valued(t):
    return False


def eval_eq(e, st, a, b):
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return False
        unk = False
        for x, y in zip(a.a[2], b.a[2]):
            r = True if x is y else e.evalb(st, eqv(x, y))
            if r is False:
                return False
            if r is None:
                unk = True
        return None if unk else True
    if a.op == "tup" and b.op == "tup" and len(a.a[0]) == len(b.a[0]):
        unk = False
        for x, y in zip(a.a[0], b.a[0]):
            r = True if x is y else e.evalb(st, eqv(x, y))
            if r is False:
                return False
            if r is None:
                unk = True
        return None if unk else True
    da, db = e.discr(st, a), e.discr(st, b)
    if da is not None and db is not None and da != db:
        return False
    # freshly created graph elements differ from everything that existed before
    for x, y in ((a, b), (b, a)):
        if is_new(x) and not is_new(y) and x not in y.atoms:
            if y.op in ("sym", "el", "fld", "src", "tgt", "at", "fresh", "agg"):
                return False
    if is_new(a) and is_new(b) and a is not b and a.op == "fresh" and b.op == "fresh":
        return False
    # two nodes of different kinds are different nodes
    ga = st.facts.get(T("kindof", a)) if a.op != "int" else None
    gb = st.facts.get(T("kindof", b)) if b.op != "int" else None
    if ga is not None and gb is not None and ga != gb:
        return False
    return None


def is_new(x):
    return x.op == "fresh" and str(x.a[2]).startswith("new")


def remaining(e, st, base, vals):
    key = enum_key(e, base)
    n = None
    if key is not None:
        a = e.p.adts.get(key)
        if a is not None:
            ds = [int(v["d"]) for v in a["variants"]]
            rest = [d for d in ds if d not in vals]
            k = st.facts.get(e.dterm(st, base))
            if isinstance(k, frozenset):
                rest = [d for d in rest if d not in k]
            if not rest:
                return "none"
            if len(rest) == 1:
                return rest[0]
            return None
    return n


def enum_key(e, base):
    return e.dsckey.get(base)


def eval_promoted(e, fr, p, i):
    memo = getattr(e, "_prom", None)
    if memo is None:
        memo = e._prom = {}
    k = (fr.key, i)
    if k in memo:
        return memo[k]

    class F(object):
        pass
    f = F()
    f.fid = "prom%d_%s" % (i, fr.key)
    f.key = fr.key
    f.body = dict(p)
    f.body["T"] = fr.body["T"]
    f.body["promoted"] = []
    f.gsub = {}
    f.chain = ()
    f.parent = None
    s = St()
    try:
        for bl in p["blocks"]:
            if bl["c"]:
                continue
            for x in bl["s"]:
                if x[0] == "=":
                    v = e.rvalue(s, f, x[2], x[3])
                    root, path = e.place(s, f, x[1])
                    e.store(s, root, path, v, None, 0)
            if bl["t"][0] not in ("return", "goto"):
                v = T("promoted", fr.key, i)
                memo[k] = v
                return v
        v = full(e, s, e.load(s, T("L", f.fid, 0)))
    except Exception:
        v = T("promoted", fr.key, i)
    memo[k] = v
    return v


def full(e, st, t, d=0):
    """value with all references resolved"""
    t = e.val(st, t)
    if d > 8:
        return t
    if t.op in ("tup", "arr"):
        return T(t.op, tuple(full(e, st, x, d + 1) for x in t.a[0]))
    if t.op == "agg":
        return T("agg", t.a[0], t.a[1], tuple(full(e, st, x, d + 1) for x in t.a[2]))
    return t


# ------------------------------------------------------------------ collections
HOLE = T("hole")


def skeleton(t, d=0):
    """abstraction of a collection element: its shape with every volatile atom replaced"""
    if isinstance(t, tuple):
        return tuple(skeleton(x, d) for x in t)
    if not isinstance(t, Term):
        return t
    if not t.atoms:
        return t
    if d > 12:
        return HOLE
    if t.op in VOLATILE:
        return HOLE
    return rebuild(t.op, tuple(skeleton(x, d + 1) for x in t.a))


def size(t, lim=4000):
    n = 0
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            n += 1
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
        if n > lim:
            return n
    return n


ANY = T("any")
NAT = T("ord", "insertion")


def cv_new():
    return T("cv", T("elems"), NAT)


def kinds_known(st, x):
    """what is known about the kind of the nodes in a value: survives storing it in a collection"""
    xs = x.a[0] if x.op == "tup" else (x,)
    out = []
    seen = {}
    for f, d in st.facts.items():
        if f.op != "discr" or type(d) is not int:
            continue
        v = f.a[0]
        while v.op == "ver":
            v = v.a[1]      # the kind of a node or an edge never changes
        if v.op in ("nd", "ed") and any(v.a[1] is y or v.op == "ed" and v.a[1] in subterms(y) for y in xs):
            if not v.a[0].atoms and v.a[1].atoms:
                f = T("discr", v)
                if seen.setdefault(f, d) == d:
                    out.append((f, d))
    return sorted(set(out), key=lambda p: p[0].id)


def cv_add(e, v, x, how, st=None):
    if v.op != "cv":
        return T("cv", T("elems", ANY), NAT)
    src, order = v.a
    sk = skeleton(x)
    if st is not None and sk is not HOLE:
        ks = kinds_known(st, x)
        if ks:
            sk = T("where", sk, tuple(T("is", skeleton(f.a[0]), T("int", d)) for f, d in ks))
    if size(sk, 400) > 400:
        sk = ANY
    if src.op == "elems":
        es = set(src.a)
    else:
        es = {T("drawn", src)}
    es.add(sk)
    if len(es) > 10 or ANY in es:
        es = {ANY}
    return T("cv", T("elems", *sorted(es, key=lambda t: t.id)), order if how == "push" else T("ord", "mixed"))


def hset_add(c, st, v, x):
    """a set with what was put in so far"""
    had = v.a[1].a if v.op == "hset" and len(v.a) == 2 else () if v.op == "hset" and v.a[0].op == "emptyset" else (ANY,)
    es = set(had) | set(cv_add(c.e, T("cv", T("elems"), NAT), freeze(c.e, st, x), "push", st).a[0].a)
    if len(es) > 10 or ANY in es:
        es = {ANY}
    return T("hset", c.fresh("set"), T("elems", *sorted(es, key=lambda t: t.id)))


BLANK = T("blank")   # some blanks, at least one (only with hooks.blank_norm)
STROPS = ("blank", "cat", "str", "replace", "replacen", "joined", "padded", "sans")
NONSTR = ("uninit", "agg", "tup", "closure", "cv", "lost", "ref", "char", "int", "bool")


def restrict(e, st, x):
    """a character of a text that the path has distinguished from a bracket"""
    if x.op in ("el", "fresh", "fld", "char") and x.op != "char":
        no = "".join(ch for ch in "()" if e.evalb(st, ieq(x, T("int", ord(ch)))) is False or e.evalb(st, eqv(x, T("char", ch))) is False)
        if no:
            return T("sans", x, no)
    return x


def join_coll(e, a, b, joinfn):
    if a.op == "cv" and b.op == "cv":
        (sa, oa), (sb, ob) = a.a, b.a
        es = set(sa.a) if sa.op == "elems" else {T("drawn", sa)}
        es |= set(sb.a) if sb.op == "elems" else {T("drawn", sb)}
        if len(es) > 10 or ANY in es:
            es = {ANY}
        order = oa if oa is ob else T("ord", "mixed")
        if sa.op == "elems" and not sa.a:
            order = ob
        elif sb.op == "elems" and not sb.a:
            order = oa
        return T("cv", T("elems", *sorted(es, key=lambda t: t.id)), order)
    if a.op == "hset" and b.op == "hset" and all(len(x.a) == 2 or x.a[0].op == "emptyset" for x in (a, b)):
        es = set(y for x in (a, b) if len(x.a) == 2 for y in x.a[1].a)
        if len(es) > 10 or ANY in es:
            es = {ANY}
        return T("hset", joinfn(a.a[0], b.a[0], "set"), T("elems", *sorted(es, key=lambda t: t.id)))
    if a.op == "it" and b.op == "it" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
        k = a.a[0]
        if k in ("split", "ws", "splitn"):
            if a.a[1] is b.a[1] and a.a[2] is b.a[2]:
                return T("it", k, a.a[1], a.a[2], -1)
            return None
        return T("it", k, *[x if x is y else (joinfn(x, y, "i%d" % i) if isinstance(x, Term) and isinstance(y, Term) else x) for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:]))])
    if (a.op in STROPS or b.op in STROPS) and a.op not in NONSTR and b.op not in NONSTR or ((a.op == "cat") != (b.op == "cat") and (a.op == "cat" and a.a[:1] == (b,) or b.op == "cat" and b.a[:1] == (a,))):
        pa = parts(a)
        pb = parts(b)
        if len(pa) <= len(pb) and pb[:len(pa)] == pa:
            pass
        elif len(pb) <= len(pa) and pa[:len(pb)] == pb:
            pa, pb = pb, pa
        else:
            # same prefix followed by repetition?
            n = 0
            while n < min(len(pa), len(pb)) and pa[n] is pb[n]:
                n += 1
            ra, rb = pa[n:], pb[n:]
            pre = pa[:n]
            if getattr(e.h, "blank_norm", False) and ra and rb and isblank(ra[0]) and isblank(rb[0]):
                pre = pre + (BLANK,)
                ra = ra[1:]
                rb = rb[1:]
                if all(isblank(x) or x.op == "star" and all(isblank(y) for y in x.a) for x in ra + rb):
                    return cat(*pre)
            es = set()
            for p in ra + rb:
                if p.op == "star":
                    es |= set(p.a)
                else:
                    es.add(skeleton(p))
            if pre and pre[-1] is BLANK and all(isblank(x) for x in es):
                return cat(*pre)
            return mkstar(pre, es)
        ex = pb[len(pa):]
        es = set()
        for p in ex:
            if p.op == "star":
                es |= set(p.a)
            else:
                es.add(skeleton(p))
        if pa and pa[-1] is BLANK and all(isblank(x) for x in es):
            return cat(*pa)
        return mkstar(pa, es)
    return None


def isblank(t):
    return t.op == "blank" or t.op == "str" and t.a[0] != "" and not t.a[0].strip(" \t")


def mkstar(pre, es):
    """a common prefix followed by any sequence of the given pieces"""
    while pre and pre[-1].op == "star":
        es = es | set(pre[-1].a)
        pre = pre[:-1]
    if len(es) > 24 or ANY in es:
        es = {ANY}
    return T("cat", *(pre + (T("star", *sorted(es, key=lambda t: t.id)),)))


def phi_node_facts(e, a, b, r, ph, x, y):
    f = getattr(e.h, "phi_node_facts", None)
    if f is not None:
        f(e, a, b, r, ph, x, y)


def parts(t):
    if t.op == "cat":
        return t.a
    if t.op == "str" and t.a[0] == "":
        return ()
    return (t,)


def cat(*ts):
    out = []
    for t in ts:
        for p in parts(t):
            if p.op == "char":
                p = T("str", p.a[0])
            if out and p.op == "str" and out[-1].op == "str":
                out[-1] = T("str", out[-1].a[0] + p.a[0])
            else:
                out.append(p)
    # absorb into a trailing repetition
    if not out:
        return T("str", "")
    if len(out) == 1:
        return out[0]
    if len(out) > 60:
        return T("cat", out[0], T("star", ANY))
    return T("cat", *out)


# ------------------------------------------------------------------ iterators
def to_iter(c, st, v):
    """value that is being iterated -> iterator term (by value semantics)"""
    e = c.e
    byref = v.op == "ref"
    w = e.val(st, v)
    return as_it(e, st, w)


def as_it(e, st, w):
    if w.op == "it":
        return w
    if w.op == "cv":
        return T("it", "cv", w)
    if w.op == "agg":
        if w.a[0] == "core::ops::range::Range":
            return T("it", "range", w.a[2][0], w.a[2][1])
        if w.a[0] == "core::ops::range::RangeInclusive" or w.a[0].endswith("RangeFrom"):
            return T("it", "range", w.a[2][0], T("any"))
        if w.a[0] == OPT:
            return T("it", "opt", w)
        return T("it", "local", w)
    if w.op == "arr":
        return T("it", "arr", w)
    if w.op in ("hset", "hmap"):
        return T("it", "hash", w)
    return T("it", "other", w)


def ordered_term(t):
    return t


def unres(c, before, st, v):
    """a Result iterated over: its Ok value only"""
    e = c.e
    if not (v.op == "agg" and v.a[0] == RES or e.dsckey.get(v) == RES):
        return [(st, v)]
    out = []
    for d, p, s in cases(e, st.copy(), v, RES, c.fr, c.line):
        if d == 0:
            out.append((s, some(p)))
        else:
            e.h.on_skip(e, before, s, c.fr, c.line)
    return out


def draw(c, st, it, tag):
    """-> list of (element or None, state, iterator after)"""
    outs = _draw(c, st, it, tag)
    h = getattr(c.e.h, "on_draw", None)
    if h is not None:
        for x, s, _ in outs:
            if x is not None:
                h(c.e, s, it, x, c)
    return outs


def _draw(c, st, it, tag):
    e = c.e
    k = it.a[0] if it.op == "it" else None

    def el(t=None):
        return T("el", t or it, c.fresh(tag + "d"))

    if k == "nodes":
        g = it.a[1]
        n = el()
        return [(None, st.copy(), it), (n, st, it)]
    if k == "edges":
        g, n, d = it.a[1], it.a[2], it.a[3]
        s0 = st.copy()
        ed = el()
        if d == 0:
            st.mem[T("SRC", g, ed)] = n
        elif d == 1:
            st.mem[T("TGT", g, ed)] = n
        st.facts[T("has", g, "E", ed)] = True
        return [(None, s0, it), (T("eref", g, ed), st, it)]
    if k == "edgeidx":
        s0 = st.copy()
        ed = el()
        st.facts[T("has", it.a[1], "E", ed)] = True
        return [(None, s0, it), (ed, st, it)]
    if k == "neigh":
        return [(None, st.copy(), it), (el(), st, it)]
    if k == "cv":
        cv = it.a[1]
        out = [(None, st.copy(), it)]
        for x, s in draw_cv(c, st, cv, tag):
            out.append((x, s, it))
        return out
    if k == "cvref":
        out = [(None, st.copy(), it)]
        for x, s in draw_cv(c, st, it.a[1], tag):
            out.append((x if x.op in ("ref",) else x, s, it))
        return out
    if k == "cvmut":
        root, path = it.a[1].a
        x = c.fresh(tag + "ix")
        return [(None, st.copy(), it), (T("ref", root, path + (("ix", x),)), st, it)]
    if k == "arr":
        out = [(None, st.copy(), it)]
        for x in it.a[1].a[0]:
            out.append((x, st.copy(), it))
        return out
    if k == "range":
        lo, hi = it.a[1], it.a[2]
        x = c.fresh(tag + "rng")
        s0 = st.copy()
        out = [(None, s0, it)]
        if e.assume1(st, neg(lt(x, lo)), True) and (hi.op == "any" or e.assume1(st, lt(x, hi), True)):
            out.append((x, st, it))
        return out
    if k in ("map", "filter", "filter_map", "flat_map", "inspect", "take_while", "skip_while", "map_while"):
        base, f = it.a[1], it.a[2]
        out = []
        got_none = False
        for x, s, b2 in draw(c, st, base, tag + "b"):
            it2 = T("it", k, b2, *it.a[2:])
            if x is None:
                out.append((None, s, it2))
                continue
            if k == "map":
                for r, s2 in c.call(s, f, [x], tag + "m"):
                    out.append((r, s2, it2))
            elif k in ("filter", "inspect", "take_while", "skip_while"):
                e.pins.append(x)
                try:
                    rs = c.call(s, f, [refto(x)], tag + "f")
                finally:
                    e.pins.pop()
                for r, s2 in rs:
                    if k != "filter":
                        if k == "take_while":
                            for truth, s3 in e.branch(s2, r, c.fr, c.line):
                                out.append((x if truth else None, s3, it2))
                        else:
                            out.append((x, s2, it2))
                        continue
                    for truth, s3 in e.branch(s2, r, c.fr, c.line):
                        if truth:
                            out.append((x, s3, it2))
                        else:
                            e.h.on_skip(e, s, s3, c.fr, c.line)
            elif k in ("filter_map", "map_while"):
                for r, s2 in c.call(s, f, [x], tag + "fm"):
                    for d, p, s3 in cases(e, s2, r, OPT, c.fr, c.line):
                        if d == 1:
                            out.append((p, s3, it2))
                        elif k == "map_while":
                            out.append((None, s3, it2))
                        else:
                            e.h.on_skip(e, s, s3, c.fr, c.line)
            elif k == "flat_map":
                for r, s2 in c.call(s, f, [x], tag + "fl"):
                    for s2, r2 in unres(c, s, s2, e.val(s2, r)):
                        for y, s3, _ in draw(c, s2, as_it(e, s2, r2), tag + "i"):
                            if y is not None:
                                out.append((y, s3, it2))
                            else:
                                e.h.on_skip(e, s, s3, c.fr, c.line)
        return cap(c, out, it)
    if k == "flatten":
        out = []
        for x, s, b2 in draw(c, st, it.a[1], tag + "b"):
            it2 = T("it", "flatten", b2)
            if x is None:
                out.append((None, s, it2))
                continue
            for s1, x2 in unres(c, s, s, e.val(s, x)):
                for y, s3, _ in draw(c, s1, as_it(e, s1, x2), tag + "i"):
                    if y is not None:
                        out.append((y, s3, it2))
                    else:
                        e.h.on_skip(e, s, s3, c.fr, c.line)
        return cap(c, out, it)
    if k == "enum":
        out = []
        for x, s, b2 in draw(c, st, it.a[1], tag + "b"):
            it2 = T("it", "enum", b2)
            out.append((None if x is None else tup(T("eidx", b2, c.fresh(tag + "n")), x), s, it2))
        return out
    if k == "zip":
        out = []
        for x, s, b2 in draw(c, st, it.a[1], tag + "z0"):
            if x is None:
                out.append((None, s, it))
                continue
            e.pins.append(x)
            ys = draw(c, s, it.a[2], tag + "z1")
            e.pins.pop()
            for y, s2, b3 in ys:
                it2 = T("it", "zip", b2, b3)
                out.append((None if y is None else tup(x, y), s2, it2))
        return cap(c, out, it)
    if k == "chain":
        out = []
        for x, s, b2 in draw(c, st.copy(), it.a[1], tag + "c0"):
            if x is not None:
                out.append((x, s, it))
        for y, s2, b3 in draw(c, st, it.a[2], tag + "c1"):
            out.append((y, s2, it))
        return cap(c, out, it)
    if k == "skip" and len(it.a) > 2 and isinstance(it.a[2], Term) and it.a[2].op == "int" and 0 < it.a[2].a[0] < 6 and stepwise(it.a[1]):
        todo = [(st, it.a[1])]
        out = []
        for j in range(it.a[2].a[0]):
            nxt = []
            for s0, i0 in todo:
                for x, s, i2 in draw(c, s0, i0, tag + "k%d" % j):
                    if x is None:
                        out.append((None, s, it))
                    else:
                        nxt.append((s, i2))
            todo = nxt
        for s0, i0 in todo:
            out.extend(draw(c, s0, i0, tag + "k"))
        return cap(c, out, it)
    if k in ("rev", "same", "skip", "take", "step", "peek"):
        out = []
        for x, s, b2 in draw(c, st, it.a[1], tag + "b"):
            out.append((x, s, T("it", k, b2, *it.a[2:])))
        return out
    if k == "cloned":
        out = []
        for x, s, b2 in draw(c, st, it.a[1], tag + "b"):
            out.append((None if x is None else e.val(s, x), s, T("it", "cloned", b2)))
        return out
    if k in ("split", "splitn", "ws"):
        n = it.a[3]
        it2 = T("it", k, it.a[1], it.a[2], n + 1 if 0 <= n < 14 else -1)
        if n >= 0:
            p = T("piece", k, it.a[1], it.a[2], n)
        else:
            p = T("piece", k, it.a[1], it.a[2], c.fresh(tag + "p"))
        if k != "ws" and n == 0:
            return [(p, st, it2)]
        if n >= 0:
            # presence of the n-th piece is a function of the string
            out = []
            for truth, s in e.branch(st, T("haspiece", k, it.a[1], it.a[2], n), c.fr, c.line):
                out.append((p if truth else None, s, it2 if truth else it))
            return out
        return [(None, st.copy(), it2), (p, st, it2)]
    if k == "opt":
        out = []
        for d, p, s in cases(e, st, it.a[1], OPT, c.fr, c.line):
            out.append((p if d == 1 else None, s, T("it", "empty")))
        return out
    if k == "empty":
        return [(None, st, it)]
    if k == "endless":
        return [(it.a[1], st, it)]
    if k == "once":
        return [(it.a[1], st, T("it", "empty"))]
    if k == "iolines":
        s0 = st.copy()
        s1 = st.copy()
        line = T("ioline", c.fresh(tag + "ln"))
        return [(None, s0, it), (ok(line), st, it), (err(T("ioerr", c.fresh(tag + "er"))), s1, it)]
    if k == "mapkv":
        return [(None, st.copy(), it), (tup(T("mkey", el()), T("mval", el())), st, it)]
    # hash, other, chars, local ...
    return [(None, st.copy(), it), (el(), st, it)]


def stepwise(it):
    """iterators whose draws are numbered: drawing twice gives the second element"""
    while it.op == "it" and it.a[0] in ("map", "filter_map", "filter", "same", "cloned", "enum", "inspect"):
        it = it.a[1]
    return it.op == "it" and it.a[0] in ("split", "splitn", "ws") and 0 <= it.a[3] < 12


def nth_of(c, st, v, i, tag):
    """element i of a collected, numbered sequence: [(element or None, state)], or None when it is not one"""
    if v.op != "cv" or v.a[0].op != "coll" or v.a[1].op == "ord" and v.a[1].a[0] not in ("insertion", "iter", "push"):
        return None
    if i.op != "int" or not 0 <= i.a[0] < 10:
        return None
    it = v.a[0].a[-1]
    if not stepwise(it):
        return None
    return nth_draw(c, st, it, i.a[0], tag)


def nth_draw(c, st, it, n, tag):
    todo = [(st, it)]
    done = []
    for j in range(n + 1):
        nxt = []
        for s0, it0 in todo:
            for x, s, it2 in draw(c, s0, it0, "%s%d" % (tag, j)):
                if x is None:
                    done.append((None, s))
                elif j == n:
                    done.append((x, s))
                else:
                    nxt.append((s, it2))
        todo = nxt[:16]
    return done


def cap(c, out, it, n=16):
    return out if len(out) <= n else out[:n]


def refto(x):
    return T("ref", T("V", x), ()) if x.op != "ref" else T("ref", T("V", x), ())


def draw_cv(c, st, cv, tag):
    outs = _draw_cv(c, st, cv, tag)
    h = getattr(c.e.h, "on_draw", None)
    if h is not None:
        for x, s in outs:
            h(c.e, s, T("it", "pop", cv) if tag.endswith("pop") else cv, x, c)
    return outs


def _draw_cv(c, st, cv, tag):
    src = cv.a[0]
    e = c.e
    if src.op == "coll":
        out = []
        for x, s, _ in draw(c, st, src.a[0], tag + "r"):
            if x is not None:
                out.append((mark(x, cv), s))
        return out
    out = []
    es = src.a or (ANY,)
    for i, x in enumerate(es):
        s = st.copy() if i + 1 < len(es) else st
        if x.op == "drawn":
            for y, s2 in draw_cv(c, s, T("cv", x.a[0], cv.a[1]), tag + "e%d" % i):
                out.append((y, s2))
        elif x is ANY:
            out.append((T("el", cv, c.fresh(tag + "any")), s))
        else:
            fr = c.fresh(tag + "h%d" % i)
            if x.op == "where":
                if all(known_kind(e, s, unhole(f.a[0], fr), f.a[1].a[0], c) for f in x.a[1]):
                    out.append((unhole(x.a[0], fr), s))
                continue
            out.append((unhole(x, fr), s))
    return out


def known_kind(e, st, v, d, c):
    if not e.set_discr(st, v, d, c.fr, c.line):
        return False
    w = e.load(st, T("N" if v.op == "nd" else "E", v.a[0], v.a[1]), ())
    return w is v or e.set_discr(st, w, d, c.fr, c.line)


def unhole(t, fr, memo=None):
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(unhole(x, fr, memo) for x in t)
    if not isinstance(t, Term):
        return t
    if t is HOLE:
        return fr
    r = memo.get(t)
    if r is None:
        r = memo[t] = rebuild(t.op, tuple(unhole(x, fr, memo) for x in t.a)) if t.a else t
    return r


def mark(x, cv):
    """remember, on elements of an explicitly ordered collection, which order they come in"""
    if cv.a[1].op == "ord":
        return x
    return x


def freeze(e, st, t, d=0):
    """replace references to locals by their current values inside iterator terms and closures"""
    if d > 30:
        return t
    if isinstance(t, tuple):
        return tuple(freeze(e, st, x, d + 1) for x in t)
    if not isinstance(t, Term):
        return t
    if not t.roots:
        return t
    if t.op == "ref":
        r = t.a[0]
        if r.op == "L":
            v = e.load(st, r, t.a[1])
            if v.op == "ref" and v.a[0].op != "L":
                return v
            if v.op == "ref":
                return freeze(e, st, v, d + 1)
            return T("ref", T("V", freeze(e, st, v, d + 1)), ())
        return t
    if t.op in ("it", "closure", "cv", "coll", "tup", "agg", "elems", "el", "V"):
        return T(t.op, *[freeze(e, st, x, d + 1) for x in t.a])
    return t


def probe(c, st, it, tag="probe"):
    """evaluate one draw for its effects; returns the extra states in which effects happened"""
    outs = draw(c, st.copy(), it, tag)
    res = []
    for x, s, _ in outs:
        if x is not None and changed(st, s, c):
            res.append((x, s))
    return res


def changed(a, b, c):
    if a.ps != b.ps and c.e.h.ps_effect(a.ps) != c.e.h.ps_effect(b.ps):
        return True
    if a.sv != b.sv or a.dirty != b.dirty:
        return True
    for k, v in b.mem.items():
        if k.op in ("N", "E", "P", "L") and a.mem.get(k) is not v:
            if k.op == "L" and k not in a.mem:
                continue
            if k.op in ("N", "E") and k not in a.mem:
                continue
            return True
    return False


def with_effects(c, st, it, result, tag="probe"):
    """result in the current state, plus the states in which consuming the iterator had effects"""
    out = []
    for x, s in probe(c, st, it, tag)[:4]:
        out.append((result, s))
    return [(result, st)] + out


IT_PASS = {"Iterator::rev": "rev", "Iterator::skip": "skip", "Iterator::take": "take",
           "Iterator::step_by": "step", "Iterator::peekable": "peek", "Iterator::by_ref": "same",
           "Iterator::fuse": "same", "DoubleEndedIterator::rev": "rev"}


def _adapt(kind, nargs):
    def f(c, st):
        it = as_it(c.e, st, argv(c, st, 0))
        rest = [c.args[i] for i in range(1, nargs)]
        return [(T("it", kind, it, *rest), st)]
    return f


for _n, _k, _a in (("map", "map", 2), ("filter", "filter", 2), ("filter_map", "filter_map", 2),
                   ("flat_map", "flat_map", 2), ("inspect", "inspect", 2), ("take_while", "take_while", 2),
                   ("skip_while", "skip_while", 2), ("map_while", "map_while", 2),
                   ("rev", "rev", 1), ("skip", "skip", 2), ("take", "take", 2), ("step_by", "step", 2),
                   ("peekable", "peek", 1), ("by_ref", "same", 1), ("fuse", "same", 1), ("enumerate", "enum", 1),
                   ("cloned", "cloned", 1), ("copied", "cloned", 1), ("flatten", "flatten", 1)):
    MODELS["Iterator::" + _n] = _adapt(_k, _a)


@model("Iterator::zip")
def _zip(c, st):
    return [(T("it", "zip", as_it(c.e, st, argv(c, st, 0)), as_it(c.e, st, argv(c, st, 1))), st)]


@model("Iterator::chain")
def _chain(c, st):
    return [(T("it", "chain", as_it(c.e, st, argv(c, st, 0)), as_it(c.e, st, argv(c, st, 1))), st)]


def local_impl(c, st, v, trait, name):
    """a local trait method for the type of an aggregate value"""
    if v.op != "agg":
        return None
    p = c.e.p
    for k, b in p.bodies.items():
        if b.get("impl_trait") and trait in str(b.get("impl_trait")) and b["name"] == name if "name" in b else False:
            if b.get("impl_self") is not None and b["T"][b["impl_self"]].get("key") == v.a[0]:
                return k
    return None


@model("IntoIterator::into_iter", "slice::iter", "Vec::iter", "VecDeque::iter", "HashSet::iter",
       "Option::iter", "Vec::into_iter", "BTreeSet::iter", "Vec::drain", "HashSet::drain")
def _into_iter(c, st):
    e = c.e
    v = argv(c, st, 0)
    if v.op in ("fmap", "hmap", "bmap"):
        return [(T("it", "mapkv", v), st)]
    ts = strip_ref(ty_str(c, 0))
    if v.op not in ("it", "cv", "agg", "arr") and ("Hash" in ts):
        return [(T("it", "hash", v), st)]
    if v.op not in ("it", "cv", "agg", "arr") and "BTreeMap" in ts:
        return [(T("it", "mapkv", v), st)]
    # a mutable borrow of an iterator stays that iterator
    if c.args[0].op == "ref" and v.op == "it":
        return [(c.args[0], st)]
    return [(as_it(e, st, v), st)]


@model("HashMap::iter", "BTreeMap::iter", "HashMap::into_iter")
def _mapiter(c, st):
    v = argv(c, st, 0)
    kind = "mapkv"
    return [(T("it", kind, v), st)]


@model("HashMap::keys", "HashMap::values", "BTreeMap::keys", "BTreeMap::values", "HashMap::values_mut")
def _mapkeys(c, st):
    nm = short(c.info["path"])
    return [(T("it", "hash" if "Hash" in nm else "other", app(nm, argv(c, st, 0))), st)]


@model("slice::iter_mut", "Vec::iter_mut", "IterMut::into_iter")
def _iter_mut(c, st):
    a = c.args[0]
    root, path = c.e.deref_loc(st, a)
    return [(T("it", "cvmut", T("ref", root, path)), st)]


@model("Iterator::next", "DoubleEndedIterator::next_back", "Iterator::nth", "Iterator::last", "Peekable::peek")
def _next(c, st):
    e = c.e
    nm = short(c.info["path"])
    v = argv(c, st, 0)
    if v.op == "agg" and v.a[0] not in (OPT,) and not v.a[0].startswith("core::ops::range"):
        k = local_impl(c, st, v, "Iterator", "next")
        if k is not None and not e.in_stack(c.fr, k):
            return e.inline(c.fr, c.b, st, k, [c.args[0]], None, c.line, "dynnext")
    it = as_it(e, st, v)
    if nm == "Iterator::nth" and len(c.args) > 1:
        k = split_lin(e.val(st, c.args[1]))
        if k[0] is ZERO and isinstance(k[1], int) and 0 <= k[1] <= 6 and c.args[0].op == "ref":
            cur = [st]
            done = []
            for i in range(k[1] + 1):
                nxt = []
                for s in cur:
                    v2 = argv(c, s, 0)
                    i2 = as_it(e, s, v2)
                    for x, s2, it2 in draw(c, s, i2, "nth%d" % i):
                        if it2 is not v2:
                            root, path = e.deref_loc(s2, c.args[0])
                            if not (root.op == "V"):
                                e.store(s2, root, path, it2, c.fr, c.line, quiet=True)
                        e.h.on_event(e, s2, "draw" if x is not None else "exhausted", {"it": i2, "x": x} if x is not None else {"it": i2, "b": c.b, "next": True}, c.fr, c.line)
                        if x is None:
                            done.append((NONE, s2))
                        elif i == k[1]:
                            done.append((some(x), s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return done
    if nm != "Iterator::next":
        it2 = it
        out = []
        for x, s, _ in draw(c, st, it, nm):
            if it.a[0] in ("split", "splitn", "ws"):
                if nm == "Iterator::last":
                    x = T("piece", it.a[0], it.a[1], it.a[2], c.fresh("last"))
                it3 = T("it", it.a[0], it.a[1], it.a[2], -1)
                if c.args[0].op == "ref":
                    c.setref(s, 0, it3)
            out.append((NONE if x is None else some(x), s))
        return out
    out = []
    for x, s, it2 in draw(c, st, it, "nx"):
        if c.args[0].op == "ref" and it2 is not v:
            root, path = e.deref_loc(s, c.args[0])
            if not (root.op == "V"):
                e.store(s, root, path, it2, c.fr, c.line, quiet=True)
        if x is not None:
            e.h.on_event(e, s, "draw", {"it": it, "x": x}, c.fr, c.line)
        else:
            e.h.on_event(e, s, "exhausted", {"it": it, "b": c.b, "next": True}, c.fr, c.line)
        out.append((NONE if x is None else some(x), s))
    return out


@model("Iterator::collect", "FromIterator::from_iter", "Itertools::collect_vec")
def _collect(c, st):
    e = c.e
    it = as_it(e, st, argv(c, st, 0))
    ts = c.targs()
    ty = ts[-1] if ts else ""
    if short(c.info["path"]) == "Itertools::collect_vec":
        ty = "Vec<_>"
    return collect_to(c, st, it, ty)


def blanks(e, st, it, es):
    """repeated text; for checkers that only care about separation, blanks shown to be there (or not) are one blank"""
    t = T("rep", it, *es)
    if getattr(e.h, "blank_norm", False) and es and all(isblank(x) or x.op == "char" and str(x.a[0]).strip(" \t") == "" for x in es):
        k = at_least_one(e, st, it)
        if k is True:
            return BLANK
        if k is False:
            return T("str", "")
        return T("rep", T("it", "range", ZERO, T("any")), T("str", " "))
    return t


def at_least_one(e, st, i):
    """whether a counted sequence has an element"""
    while i.op == "it" and i.a[0] in ("map", "cloned", "copied", "rev") and isinstance(i.a[1], Term):
        i = i.a[1]
    if i.op == "it" and i.a[0] == "range" and i.a[2].op != "any":
        return e.evalb(st, lt(i.a[1], i.a[2]))
    if i.op == "it" and i.a[0] == "range":
        return True if i.a[1] is ZERO and i.a[-1] == "endless" else None
    if i.op == "it" and i.a[0] == "take" and len(i.a) > 2 and isinstance(i.a[2], Term):
        k = e.evalb(st, lt(ZERO, i.a[2]))
        return k if k is not True else at_least_one(e, st, i.a[1])
    if i.op == "it" and i.a[0] == "endless":
        return True
    return None


def collect_to(c, st, it, ty):
    e = c.e
    fz = freeze(e, st, it)
    ty = ty.replace("alloc::vec::", "").replace("alloc::string::", "").replace("std::vec::", "").replace("std::string::", "")
    if re.match(r"^(std::|core::|alloc::)?(vec::)?Vec<", ty) or "VecDeque<" in ty.split(" ")[0][:40]:
        return with_effects(c, st, it, T("cv", T("coll", fz), T("ord", "iter")), "col")
    if ty.endswith("String") and "Result" not in ty and "Option" not in ty:
        outs = draw(c, st.copy(), it, "cs")
        es = set()
        for x, s, _ in outs:
            if x is not None:
                es.add(skeleton(e.val(s, x)))
        es = sorted(es, key=lambda t: t.id) if 0 < len(es) <= 6 else [ANY]
        return with_effects(c, st, it, blanks(e, st, fz, es), "col")
    if "Result<" in ty or "Option<" in ty:
        key = RES if "Result<" in ty else OPT
        inner = re.sub(r"^.*?(Result|Option)<", "", ty)
        out = []
        got = set()
        outs = draw(c, st.copy(), it, "cr")
        for x, s, _ in outs:
            if x is None:
                continue
            for d, p, s2 in cases(e, s, x, key, c.fr, c.line):
                if d != okv(key):
                    out.append((mk(key, False, p), s2))
        okit = T("it", "oks", fz)
        r = collect_to(c, st, okit, inner)
        return [(mk(key, True, v), s) for v, s in r] + out[:6]
    if "HashSet<" in ty:
        return with_effects(c, st, it, T("hset", fz), "col")
    if "HashMap<" in ty:
        return with_effects(c, st, it, T("hmap", fz), "col")
    if "BTreeMap<" in ty or "BTreeSet<" in ty:
        return with_effects(c, st, it, T("bmap", fz), "col")
    # local FromIterator implementations
    for k, b in e.p.bodies.items():
        if b["path"].endswith("::from_iter") and "FromIterator" in b["path"]:
            self_s = b["path"].split(" as ")[0].lstrip("<").split("::")[-1]
            if ty.split("<")[0].split("::")[-1] == self_s.split("<")[0]:
                return e.inline(c.fr, c.b, st, k, [it], None, c.line, "collect")
    return with_effects(c, st, it, T("coll", T("ty", ty), fz), "col")


@model("Iterator::count")
def _count(c, st):
    it = as_it(c.e, st, argv(c, st, 0))
    if it.op == "it" and it.a[0] in ("hash", "sl") and len(it.a) == 2:
        return [(T("len", it.a[1]), st)]
    outs = with_effects(c, st, it, T("count", freeze(c.e, st, it)), "cnt")
    h = getattr(c.e.h, "on_count", None)
    if h is not None:
        for v, s in outs:
            h(c.e, s, it, v, c)
    return outs


@model("Iterator::sum", "Iterator::product")
def _sum(c, st):
    it = as_it(c.e, st, argv(c, st, 0))
    return with_effects(c, st, it, T("sum", freeze(c.e, st, it)), "cnt")


@model("Iterator::min", "Iterator::max")
def _minmax(c, st):
    it = as_it(c.e, st, argv(c, st, 0))
    nm = short(c.info["path"]).split("::")[1]
    fz = freeze(c.e, st, it)
    s0 = st.copy()
    x = T(nm, fz)
    return [(NONE, s0), (some(x), st)]


@model("Iterator::min_by", "Iterator::max_by", "Iterator::min_by_key", "Iterator::max_by_key")
def _minby(c, st):
    it = as_it(c.e, st, argv(c, st, 0))
    nm = short(c.info["path"]).split("::")[1]
    out = []
    for x, s, _ in draw(c, st, it, nm):
        out.append((NONE if x is None else some(x), s))
    return out


@model("Iterator::all", "Iterator::any", "Itertools::all_equal")
def _all(c, st):
    e = c.e
    it = as_it(e, st, argv(c, st, 0))
    nm = short(c.info["path"]).split("::")[1]
    f = c.args[1] if len(c.args) > 1 else UNIT
    fz = freeze(e, st, T("tup", (it, f)))
    t = T("quant", nm, fz, version(e, st, it))
    # for effects
    outs = []
    hq = getattr(e.h, "on_quant", None)
    found, rest = [], []
    for x, s, _ in draw(c, st.copy(), it, nm):
        if x is not None and f is not UNIT:
            for r, s2 in c.call(s, f, [x], nm):
                if hq is not None:
                    for truth, s3 in e.branch(s2.copy(), r, c.fr, c.line):
                        (found if truth == (nm == "any") else rest).append((x, s3))
                if changed(st, s2, c):
                    outs.append((c.fresh("q"), s2))
    res = [(t, st)] + outs[:3]
    if hq is not None:
        for v, s in res:
            hq(e, s, st.ps, found, t, rest)
    return res


def version(e, st, it):
    """stamp of the graph structure an iterator was created over"""
    return UNIT


@model("Iterator::find", "Iterator::position", "Iterator::find_map", "Iterator::rposition")
def _find(c, st):
    e = c.e
    it = as_it(e, st, argv(c, st, 0))
    nm = short(c.info["path"]).split("::")[1]
    out = []
    f = c.args[1]
    s0 = st.copy()
    e.h.on_event(e, s0, "exhausted", {"it": it}, c.fr, c.line)
    out.append((NONE, s0))
    for x, s, it2 in draw(c, st, it, nm):
        if x is None:
            continue
        for r, s2 in c.call(s, f, [refto(x)] if nm == "find" else [x], nm):
            if nm == "find_map":
                for d, p, s3 in cases(e, s2, r, OPT, c.fr, c.line):
                    if d == 1:
                        out.append((some(p), s3))
                continue
            for truth, s3 in e.branch(s2, r, c.fr, c.line):
                if truth:
                    out.append((some(x if nm == "find" else T("eidx", it, c.fresh("pos"))), s3))
    return out


@model("Iterator::for_each")
def _for_each(c, st):
    e = c.e
    it = as_it(e, st, argv(c, st, 0))
    out = []
    for rnd in range(2):
        s0 = st.copy()
        e.h.on_event(e, s0, "exhausted", {"it": it, "b": c.b}, c.fr, c.line)
        out.append((UNIT, s0))
        nxt = []
        for x, s, _ in draw(c, st, it, "fe%d" % rnd):
            if x is None:
                continue
            e.h.on_event(e, s, "draw", {"it": it, "x": x}, c.fr, c.line)
            for r, s2 in c.call(s, c.args[1], [x], "fe%d" % rnd):
                e.h.on_event(e, s2, "iterated", {"it": it, "x": x}, c.fr, c.line)
                nxt.append(s2)
        for s2 in nxt:
            if rnd:
                e.h.on_event(e, s2, "exhausted", {"it": it, "b": c.b}, c.fr, c.line)
                out.append((UNIT, s2))
        if rnd or not nxt:
            break
        st = nxt[0].copy()
        for s2 in nxt:
            e.h.on_event(e, s2, "exhausted", {"it": it, "b": c.b}, c.fr, c.line)
            out.append((UNIT, s2))
    return out


@model("Iterator::try_for_each")
def _try_for_each(c, st):
    e = c.e
    it = as_it(e, st, argv(c, st, 0))
    out = [(ok(UNIT), st.copy())]
    for x, s, _ in draw(c, st, it, "fe"):
        if x is None:
            continue
        for r, s2 in c.call(s, c.args[1], [x], "fe"):
            out.append((r, s2))
    return out


@model("Iterator::fold", "Iterator::try_fold")
def _fold(c, st):
    e = c.e
    it = as_it(e, st, argv(c, st, 0))
    init = c.args[1]
    out = [(init, st.copy())]
    for x, s, _ in draw(c, st, it, "fo"):
        if x is None:
            continue
        acc = T("foldacc", c.fresh("acc"))
        if init.op in ("cat", "str"):
            acc = T("cat", init, T("star", ANY)) if init.op == "cat" else T("cat", init, T("star", ANY))
            acc = init
        if init.op in ("cv", "tup", "agg", "bool"):
            acc = init
        for r, s2 in c.call(s, c.args[2], [acc, x], "fo"):
            j = join_coll(e, init, r, lambda a, b, i: T("foldacc", c.fresh("j")))
            if j is None and r is not init and r.op not in ("agg", "bool"):
                j = T("folded", freeze(e, s2, T("tup", (it, c.args[2], init))), c.fresh("r"))
            out.append((j if j is not None else r, s2))
    return out[:8]


@model("Iterator::size_hint")
def _sh(c, st):
    return [(c.fresh("sh"), st)]


@model("Extend::extend", "Vec::extend", "Vec::append", "HashSet::extend", "Vec::extend_from_slice")
def _extend(c, st):
    e = c.e
    tgt = argv(c, st, 0)
    it = as_it(e, st, argv(c, st, 1))
    if tgt.op == "cv":
        out = []
        any_ = False
        for x, s, _ in draw(c, st.copy(), it, "ext"):
            if x is None:
                continue
            any_ = True
            s2 = s if changed(st, s, c) else st.copy()
            nv = cv_add(e, tgt, x, "push")
            out.append((nv, s2))
        nv = tgt
        for v, s in out:
            nv = join_coll(e, nv, v, None)
        # element abstraction with provenance of the iterator (drawn again when used)
        src = tgt.a[0]
        es = set(src.a) if src.op == "elems" else {T("drawn", src)}
        es.add(T("drawn", T("coll", freeze(e, st, it))))
        nv = T("cv", T("elems", *sorted(es, key=lambda t: t.id)), tgt.a[1])
        res = []
        s0 = st.copy()
        c.setref(s0, 0, nv)
        res.append((UNIT, s0))
        for v, s in out[:6]:
            if changed(st, s, c):
                c.setref(s, 0, nv)
                res.append((UNIT, s))
        return res
    if tgt.op == "hset":
        probe(c, st, it, "ext")
        c.setref(st, 0, T("hset", T("hole2", tgt, freeze(e, st, it))) if size(tgt) < 40 else T("hset", c.fresh("hs")))
        return [(UNIT, st)]
    probe(c, st, it, "ext")
    c.setref(st, 0, c.fresh("ext"))
    return [(UNIT, st)]


# ------------------------------------------------------------------ Option / Result
@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def _is(c, st):
    nm = short(c.info["path"])
    v = argv(c, st, 0)
    d = {"Option::is_some": 1, "Option::is_none": 0, "Result::is_ok": 0, "Result::is_err": 1}[nm]
    out = []
    for x, p, s in cases(c.e, st, v, optres(c), c.fr, c.line):
        out.append((TRUE if x == d else FALSE, s))
    return out


def _map_like(key, good, fn):
    def f(c, st):
        out = []
        v = argv(c, st, 0)
        for d, p, s in cases(c.e, st, v, key, c.fr, c.line):
            out.extend(fn(c, s, d == good, p, v))
        return out
    return f


for _key, _nm in ((OPT, "Option"), (RES, "Result")):
    def _mk(key):
        good = okv(key)

        def mp(c, s, g, p, v):
            if not g:
                return [(mk(key, False, p), s)]
            return [(mk(key, True, r), s2) for r, s2 in c.call(s, c.args[1], [p], "om")]

        def and_then(c, s, g, p, v):
            if not g:
                return [(mk(key, False, p), s)]
            return c.call(s, c.args[1], [p], "oa")

        def unwrap(c, s, g, p, v):
            if g:
                return [(p, s)]
            c.panic(s, "unwrap", v)
            return []

        def unwrap_or(c, s, g, p, v):
            return [(p if g else c.args[1], s)]

        def unwrap_or_else(c, s, g, p, v):
            if g:
                return [(p, s)]
            return c.call(s, c.args[1], [] if key == OPT else [p], "ue")

        def map_or(c, s, g, p, v):
            if g:
                return c.call(s, c.args[2], [p], "mo")
            return [(c.args[1], s)]

        def map_or_else(c, s, g, p, v):
            if g:
                return c.call(s, c.args[2], [p], "mo")
            return c.call(s, c.args[1], [] if key == OPT else [p], "mo2")

        def is_and(c, s, g, p, v):
            if g:
                return c.call(s, c.args[1], [p], "isa")
            return [(FALSE, s)]

        def unwrap_or_default(c, s, g, p, v):
            return [(p if g else T("dflt", v), s)]

        def or_(c, s, g, p, v):
            return [(mk(key, True, p) if g else c.args[1], s)]

        def or_else(c, s, g, p, v):
            if g:
                return [(mk(key, True, p), s)]
            return c.call(s, c.args[1], [] if key == OPT else [p], "oe")

        def and_(c, s, g, p, v):
            return [(c.args[1] if g else mk(key, False, p), s)]
        n = "Option" if key == OPT else "Result"
        for nm, fn in (("map", mp), ("and_then", and_then), ("unwrap", unwrap), ("expect", unwrap),
                       ("unwrap_or", unwrap_or), ("unwrap_or_else", unwrap_or_else), ("map_or", map_or),
                       ("map_or_else", map_or_else), ("unwrap_or_default", unwrap_or_default), ("or", or_),
                       ("or_else", or_else), ("and", and_), ("is_some_and", is_and), ("is_ok_and", is_and)):
            MODELS["%s::%s" % (n, nm)] = _map_like(key, good, fn)
    _mk(_key)


@model("Option::is_none_or")
def _is_none_or(c, st):
    out = []
    for d, p, s in cases(c.e, st, argv(c, st, 0), OPT, c.fr, c.line):
        if d == 0:
            out.append((TRUE, s))
        else:
            out.extend(c.call(s, c.args[1], [p], "ino"))
    return out


@model("Option::filter")
def _opt_filter(c, st):
    out = []
    for d, p, s in cases(c.e, st, argv(c, st, 0), OPT, c.fr, c.line):
        if d == 0:
            out.append((NONE, s))
            continue
        for r, s2 in c.call(s, c.args[1], [refto(p)], "of"):
            for truth, s3 in c.e.branch(s2, r, c.fr, c.line):
                out.append((some(p) if truth else NONE, s3))
    return out


@model("Option::ok_or", "Option::ok_or_else")
def _ok_or(c, st):
    out = []
    lazy_ = short(c.info["path"]).endswith("else")
    for d, p, s in cases(c.e, st, argv(c, st, 0), OPT, c.fr, c.line):
        if d == 1:
            out.append((ok(p), s))
        elif lazy_:
            for r, s2 in c.call(s, c.args[1], [], "oo"):
                out.append((err(r), s2))
        else:
            out.append((err(c.args[1]), s))
    return out


@model("Result::ok", "Result::err")
def _res_ok(c, st):
    good = 0 if short(c.info["path"]).endswith("::ok") else 1
    out = []
    for d, p, s in cases(c.e, st, argv(c, st, 0), RES, c.fr, c.line):
        if d == good:
            out.append((some(p), s))
        else:
            c.e.h.on_event(c.e, s, "discard", {"v": p}, c.fr, c.line)
            out.append((NONE, s))
    return out


@model("Result::map_err")
def _map_err(c, st):
    out = []
    for d, p, s in cases(c.e, st, argv(c, st, 0), RES, c.fr, c.line):
        if d == 0:
            out.append((ok(p), s))
        else:
            for r, s2 in c.call(s, c.args[1], [p], "me"):
                out.append((err(r), s2))
    return out


@model("Result::unwrap_err", "Result::expect_err")
def _unwrap_err(c, st):
    out = []
    for d, p, s in cases(c.e, st, argv(c, st, 0), RES, c.fr, c.line):
        if d == 1:
            out.append((p, s))
        else:
            c.panic(s, "unwrap_err")
    return out


@model("Option::as_ref", "Option::as_mut", "Option::as_deref", "Result::as_ref", "Option::as_deref_mut", "Result::as_mut")
def _as_ref(c, st):
    key = optres(c)
    a = c.args[0]
    root, path = c.e.deref_loc(st, a)
    out = []
    v = c.e.load(st, root, path)
    ismut = "mut" in short(c.info["path"])
    for d, p, s in cases(c.e, st, v, key, c.fr, c.line):
        if d == okv(key):
            if ismut:
                r = T("ref", root, path + (("f", 1 if key == OPT else 0, 0, key),))
            else:
                r = p if p.op != "ref" else p
                if root.op != "V":
                    r = T("ref", root, path + (("f", 1 if key == OPT else 0, 0, key),))
                else:
                    r = p
            out.append((mk(key, True, r), s))
        else:
            out.append((mk(key, False, p), s))
    return out


@model("Option::take")
def _take(c, st):
    v = argv(c, st, 0)
    c.setref(st, 0, NONE)
    return [(v, st)]


@model("Option::replace", "Option::insert", "Option::get_or_insert")
def _oreplace(c, st):
    nm = short(c.info["path"])
    v = argv(c, st, 0)
    root, path = c.e.deref_loc(st, c.args[0])
    if nm == "Option::get_or_insert":
        out = []
        for d, p, s in cases(c.e, st, v, OPT, c.fr, c.line):
            if d == 0:
                c.setref(s, 0, some(c.args[1]))
            out.append((T("ref", root, path + (("f", 1, 0, OPT),)), s))
        return out
    c.setref(st, 0, some(c.args[1]))
    if nm == "Option::insert":
        return [(T("ref", root, path + (("f", 1, 0, OPT),)), st)]
    return [(v, st)]


@model("Option::get_or_insert_with")
def _goiw(c, st):
    v = argv(c, st, 0)
    root, path = c.e.deref_loc(st, c.args[0])
    out = []
    for d, p, s in cases(c.e, st, v, OPT, c.fr, c.line):
        if d == 0:
            for r, s2 in c.call(s, c.args[1], [], "goi"):
                c.setref(s2, 0, some(r))
                out.append((T("ref", root, path + (("f", 1, 0, OPT),)), s2))
        else:
            out.append((T("ref", root, path + (("f", 1, 0, OPT),)), s))
    return out


@model("Option::cloned", "Option::copied")
def _ocloned(c, st):
    out = []
    for d, p, s in cases(c.e, st, argv(c, st, 0), OPT, c.fr, c.line):
        out.append((some(c.e.val(s, p)) if d == 1 else NONE, s))
    return out


@model("Option::flatten")
def _oflat(c, st):
    out = []
    for d, p, s in cases(c.e, st, argv(c, st, 0), OPT, c.fr, c.line):
        out.append((c.e.val(s, p) if d == 1 else NONE, s))
    return out


@model("Option::zip")
def _ozip(c, st):
    out = []
    for d, p, s in cases(c.e, st, argv(c, st, 0), OPT, c.fr, c.line):
        if d == 0:
            out.append((NONE, s))
            continue
        for d2, q, s2 in cases(c.e, s, c.e.val(s, c.args[1]), OPT, c.fr, c.line):
            out.append((some(tup(p, q)) if d2 == 1 else NONE, s2))
    return out


@model("Option::transpose")
def _otrans(c, st):
    out = []
    for d, p, s in cases(c.e, st, argv(c, st, 0), OPT, c.fr, c.line):
        if d == 0:
            out.append((ok(NONE), s))
            continue
        for d2, q, s2 in cases(c.e, s, c.e.val(s, p), RES, c.fr, c.line):
            out.append((ok(some(q)) if d2 == 0 else err(q), s2))
    return out


@model("Try::branch")
def _try(c, st):
    out = []
    ts = ty_str(c, 0)
    isres = "Result<" in ts or not ("Option<" in ts)
    v = argv(c, st, 0)
    if v.op == "agg" and v.a[0] == OPT:
        isres = False
    key = RES if isres else OPT
    for d, p, s in cases(c.e, st, v, key, c.fr, c.line):
        if d == okv(key):
            out.append((T("agg", CF, 0, (p,)), s))
        else:
            out.append((T("agg", CF, 1, (err(p) if isres else NONE,)), s))
    return out


@model("FromResidual::from_residual")
def _fr(c, st):
    return [(argv(c, st, 0), st)]


@model("Try::from_output")
def _fo(c, st):
    return [(ok(c.args[0]), st)]


@model("OrExit::or_exit")
def _or_exit(c, st):
    v = argv(c, st, 0)
    out = []
    isres = "Result" in ty_str(c, 0) or (v.op == "agg" and v.a[0] == RES)
    key = RES if isres else OPT
    for d, p, s in cases(c.e, st, v, key, c.fr, c.line):
        if d == okv(key):
            out.append((p, s))
        else:
            c.e.h.on_event(c.e, s, "exit", {"code": c.args[2] if len(c.args) > 2 else None, "failing": True}, c.fr, c.line)
    return out


@model("process::exit")
def _exit(c, st):
    c.e.h.on_event(c.e, st, "exit", {"code": c.args[0]}, c.fr, c.line)
    return []


# ------------------------------------------------------------------ identity-like
@model("Clone::clone", "ToOwned::to_owned", "String::as_str", "Deref::deref", "AsRef::as_ref", "Borrow::borrow",
       "hint::must_use", "str::as_str", "Cow::into_owned", "Into::into_string", "str::to_owned", "String::into_boxed_str",
       "Rc::new", "str::as_ref", "Box::from", "slice::to_vec", "Vec::as_slice", "String::from_utf8_lossy",
       "str::into_string", "Borrow::borrow_mut", "Cow::from", "convert::identity", "Vec::into_boxed_slice", "String::clone",
       "Clone::clone_from_ref", "StableGraph::clone", "slice::into_vec", "Option::clone", "Vec::clone")
def _ident(c, st):
    return [(full1(c.e, st, c.args[0]), st)]


def full1(e, st, a):
    v = e.val(st, a)
    if v.op == "agg" and v.a[0] in (OPT, RES):
        return v
    return v


@model("Deref::deref", "AsRef::as_ref", "Borrow::borrow", "String::as_str", "Vec::as_slice")
def _deref(c, st):
    # keep the location when dereferencing storage (slices of vectors)
    a = c.args[0]
    v = c.e.val(st, a)
    if v.op in ("str", "cat", "sym", "fresh", "app"):
        return [(v, st)]
    return [(a if a.op == "ref" else v, st)]


@model("DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice", "Pin::as_mut")
def _deref_mut(c, st):
    return [(c.args[0], st)]


@model("ToString::to_string", "ToString::spec_to_string", "SpecToString::spec_to_string")
def _to_string(c, st):
    e = c.e
    v = argv(c, st, 0)
    ts = strip_ref(ty_str(c, 0))
    return [(disp(e, v, ts), st)]


def disp(e, v, ts):
    if v.op in ("str", "cat", "rep", "joined", "app", "disp"):
        return v
    if v.op == "char":
        return T("str", v.a[0])
    if v.op == "int":
        return T("str", str(v.a[0]))
    if ts in ("usize", "isize", "u32", "i32", "u64", "i64", "u8") or v.op in ("lin", "add", "sub"):
        return T("disp", v)
    return v


@model("Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from")
def _into(c, st):
    e = c.e
    v = argv(c, st, 0)
    nm = short(c.info["path"])
    ts = c.targs()
    if nm.startswith("Into") or nm.startswith("TryInto"):
        src, dst = (ts + ["", ""])[:2]
    else:
        dst, src = (ts + ["", ""])[:2]
    from engine import norm_ty
    if nm.startswith("Try"):
        x = app(nm, T("ty", norm_ty(dst)), v)
        return [(p, s) for p, s in ((ok(T("fld", x, 0, 0)), st.copy()), (err(T("fld", x, 1, 0)), st))]
    ns, nd = norm_ty(src), norm_ty(dst)
    if ns == nd:
        return [(v if c.args[0].op != "ref" else c.args[0], st)]
    k = e.p.froms.get((nd, ns))
    if k is None:
        k = generic_from(e, nd, ns)
    if k is not None and not e.in_stack(c.fr, k):
        info = {"key": k, "path": e.p.bodies[k]["path"], "args": [], "r": k, "rargs": [], "name": "from"}
        fr2 = c.fr
        return e.inline(c.fr, c.b, st, k, [c.args[0]], None, c.line, "into")
    if nd.split("::")[-1] in ("String", "str", "&str") or nd.endswith("Box<str>"):
        if ns == "char":
            return [(disp(e, v, "char"), st)]
        return [(v, st)]
    if nd == ns or not nd:
        return [(v, st)]
    if re.match(r"^[A-Z]$", nd):
        return [(v, st)]
    # Error from concrete errors and other opaque conversions
    if nd.startswith("core::option::Option<") or nd.startswith("Option<"):
        return [(some(v), st)]
    return [(app("into", T("ty", nd), v), st)]


def generic_from(e, nd, ns):
    """blanket local From impls, e.g. impl<S: AsRef<str>> From<S> for Features"""
    for (t, s), k in e.p.froms.items():
        if t == nd and re.match(r"^[A-Z]$", s):
            return k
        # lifetimes / path prefixes
        if t.split("::")[-1] == nd.split("::")[-1] and s.replace("&", "").split("::")[-1] == ns.replace("&", "").split("::")[-1] and s.startswith("&") == ns.startswith("&"):
            return k
    return None


@model("mem::replace")
def _replace(c, st):
    root, path = c.e.deref_loc(st, c.args[0])
    old = c.e.load(st, root, path)
    c.setref(st, 0, c.args[1])
    return [(old, st)]


@model("mem::take")
def _mtake(c, st):
    root, path = c.e.deref_loc(st, c.args[0])
    old = c.e.load(st, root, path)
    ty = strip_ref(ty_str(c, 0))
    new = T("dflt", T("ty", ty))
    if ty.endswith("String"):
        new = T("str", "")
    elif "Vec<" in ty:
        new = cv_new()
    elif "Option<" in ty:
        new = NONE
    c.setref(st, 0, new)
    return [(old, st)]


@model("mem::swap")
def _mswap(c, st):
    r1 = c.e.deref_loc(st, c.args[0])
    r2 = c.e.deref_loc(st, c.args[1])
    a, b = c.e.load(st, *r1), c.e.load(st, *r2)
    c.setref(st, 0, b)
    c.setref(st, 1, a)
    return [(UNIT, st)]


@model("mem::drop", "mem::forget")
def _drop(c, st):
    v = argv(c, st, 0)
    c.e.h.on_event(c.e, st, "dropped", {"v": v}, c.fr, c.line)
    return [(UNIT, st)]


@model("Default::default")
def _default(c, st):
    ts = c.targs()
    t = ts[0] if ts else ""
    if t.endswith("String"):
        return [(T("str", ""), st)]
    if "Vec<" in t:
        return [(cv_new(), st)]
    if t in ("usize", "isize", "u32", "i32", "u64"):
        return [(ZERO, st)]
    if t == "bool":
        return [(FALSE, st)]
    if "Option<" in t:
        return [(NONE, st)]
    if "BTreeMap<" in t or "HashMap<" in t:
        return [(T("emptymap", c.fresh("map")), st)]
    return [(app("default", T("ty", t)), st)]


# ------------------------------------------------------------------ comparison
def eq_terms(e, st, a, b, ty):
    a = e.val(st, a)
    b = e.val(st, b)
    if ty in ("usize", "isize", "u32", "i32", "u64", "i64", "u8") or a.op in ("int", "lin") or b.op in ("int", "lin"):
        return ieq(a, b)
    if a.op == "agg" and b.op != "agg" or b.op == "agg" and a.op != "agg":
        x, y = (a, b) if a.op == "agg" else (b, a)
        if not x.a[2]:
            return T("isv", y, e.discr_of_variant(x.a[0], x.a[1]))
    if a.op in ("agg", "tup") or b.op in ("agg", "tup"):
        return eqv(full(e, st, a), full(e, st, b))
    return eqv(a, b)


@model("PartialEq::eq", "PartialEq::ne")
def _eq(c, st):
    nm = short(c.info["path"])
    ty = strip_ref(ty_str(c, 0))
    e = c.e
    # comparisons of references forward to the pointee's own operator
    a, b = e.val(st, c.args[0]), e.val(st, c.args[1])
    k = eq_body(c, ty)
    if k is not None and not e.in_stack(c.fr, k) and not getattr(e.h, "opaque_eq", False):
        outs = e.inline(c.fr, c.b, st, k, [strip_chain(e, st, c.args[0]), strip_chain(e, st, c.args[1])], None, c.line, "eqf")
        if nm.endswith("ne"):
            outs = [(neg(r), s) for r, s in outs]
        return outs
    if k is not None:
        t = eqv(T("obj", a), T("obj", b))
        t = eqv(a, b) if a is not b else TRUE
        return [(neg(t) if nm.endswith("ne") else t, st)]
    t = eq_terms(e, st, a, b, ty)
    return [(neg(t) if nm.endswith("::ne") else t, st)]


def strip_chain(e, st, t):
    while t.op == "ref":
        v = e.load(st, t.a[0], t.a[1])
        if v.op == "ref":
            t = v
        else:
            return t
    return T("ref", T("V", t), ())


def eq_body(c, ty):
    """hand-written local PartialEq for the compared type"""
    p = c.e.p
    memo = getattr(p, "_eqb", None)
    if memo is None:
        memo = p._eqb = {}
        for k, b in p.bodies.items():
            if b["path"].endswith("::eq") and "PartialEq" in b["path"] and not b.get("derived") and not b.get("closure"):
                s = b["path"].lstrip("<").split(" as ")[0]
                memo[s.split("::")[-1].split("<")[0]] = k
    return memo.get(ty.split("::")[-1].split("<")[0]) if ty and "<" not in ty and "(" not in ty else None


@model("Ord::cmp", "PartialOrd::partial_cmp")
def _cmp(c, st):
    e = c.e
    ty = strip_ref(ty_str(c, 0))
    a, b = e.val(st, c.args[0]), e.val(st, c.args[1])
    part = short(c.info["path"]).endswith("partial_cmp")
    # local Ord
    for k, bd in e.p.bodies.items():
        if bd["path"].endswith("::cmp") and " as core::cmp::Ord" in bd["path"] and not bd.get("derived"):
            s = bd["path"].lstrip("<").split(" as ")[0].split("::")[-1]
            if s == ty.split("::")[-1] and not e.in_stack(c.fr, k):
                outs = e.inline(c.fr, c.b, st, k, [strip_chain(e, st, c.args[0]), strip_chain(e, st, c.args[1])], None, c.line, "cmpf")
                return [(some(r) if part else r, s2) for r, s2 in outs]
    if a.op == "tup" and b.op == "tup":
        r = T("cmp", full(e, st, a), full(e, st, b))
    elif a is b:
        r = agg(ORD, 1, ())
    else:
        r = T("cmp", a, b)
    return [(some(r) if part else r, st)]


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _plt(c, st):
    e = c.e
    ty = strip_ref(ty_str(c, 0))
    nm = short(c.info["path"])[-2:]
    a, b = e.val(st, c.args[0]), e.val(st, c.args[1])
    if ty in ("usize", "isize", "u32", "i32", "u64", "i64"):
        t = {"lt": lt(a, b), "gt": lt(b, a), "le": neg(lt(b, a)), "ge": neg(lt(a, b))}[nm]
        return [(t, st)]
    out = []
    for r, s in _cmp(c, st):
        for d in (255, 0, 1):
            s2 = s.copy()
            if r.op == "agg":
                if e.discr_of_variant(r.a[0], r.a[1]) != d:
                    continue
            elif not e.set_discr(s2, r, d):
                continue
            t = {"lt": d == 255, "gt": d == 1, "le": d != 1, "ge": d != 255}[nm]
            out.append((TRUE if t else FALSE, s2))
    return out


@model("Ordering::then", "Ordering::then_with")
def _then(c, st):
    e = c.e
    v = argv(c, st, 0)
    out = []
    lazy_ = short(c.info["path"]).endswith("with")
    for d in (255, 0, 1):
        s = st.copy()
        if v.op == "agg":
            if e.discr_of_variant(v.a[0], v.a[1]) != d:
                continue
        elif not e.set_discr(s, v, d, c.fr, c.line):
            continue
        if d == 0:
            if lazy_:
                out.extend(c.call(s, c.args[1], [], "then"))
            else:
                out.append((argv(c, s, 1), s))
        else:
            out.append((agg(ORD, e.variant_of_discr(ORD, d) if e.p.adts.get(ORD) else {255: 0, 1: 2}[d], ()), s))
    return out


@model("Ordering::reverse")
def _rev(c, st):
    e = c.e
    v = argv(c, st, 0)
    if v.op == "cmp":
        return [(T("cmp", v.a[1], v.a[0]), st)]
    if v.op == "agg":
        d = e.discr_of_variant(v.a[0], v.a[1])
        nd = {255: 1, -1: 1, 0: 0, 1: 255}[d]
        return [(agg(ORD, e.variant_of_discr(ORD, nd) if e.p.adts.get(ORD) else {255: 0, 0: 1, 1: 2}[nd], ()), st)]
    return [(app("reverse", v), st)]


@model("Ordering::is_eq", "Ordering::is_lt", "Ordering::is_gt", "Ordering::is_ne", "Ordering::is_le", "Ordering::is_ge")
def _ordis(c, st):
    v = argv(c, st, 0)
    k = short(c.info["path"])[-2:]
    want = {"eq": ((0,), 1), "lt": ((255,), 1), "gt": ((1,), 1), "ne": ((0,), 0), "le": ((1,), 0), "ge": ((255,), 0)}[k]
    t = T("isv", v, want[0][0])
    return [(t if want[1] else neg(t), st)]


@model("cmp::min", "cmp::max", "Ord::min", "Ord::max")
def _min2(c, st):
    e = c.e
    a, b = argv(c, st, 0), argv(c, st, 1)
    ismin = short(c.info["path"]).endswith("min")
    out = []
    for truth, s in e.branch(st, lt(b, a), c.fr, c.line):
        # min: b if b<a else a ; max: a if b<a else b
        out.append(((b if truth else a) if ismin else (a if truth else b), s))
    return out


for _n in ("usize", "isize", "u32", "u64", "i32", "i64"):
    def _ss(c, st):
        e = c.e
        a, b = argv(c, st, 0), argv(c, st, 1)
        out = []
        for truth, s in e.branch(st, lt(a, b), c.fr, c.line):
            out.append((ZERO if truth else sub(a, b), s))
        return out

    def _cs(c, st):
        e = c.e
        a, b = argv(c, st, 0), argv(c, st, 1)
        out = []
        for truth, s in e.branch(st, lt(a, b), c.fr, c.line):
            out.append((NONE if truth else some(sub(a, b)), s))
        return out

    def _wa(c, st):
        return [(add(argv(c, st, 0), argv(c, st, 1)), st)]

    def _ca(c, st):
        s0 = st.copy()
        return [(NONE, s0), (some(add(argv(c, st, 0), argv(c, st, 1))), st)]
    if _n[0] == "u":
        MODELS[_n + "::saturating_sub"] = _ss
        MODELS[_n + "::checked_sub"] = _cs
        MODELS[_n + "::saturating_add"] = _wa
    MODELS[_n + "::checked_add"] = _ca
    MODELS[_n + "::wrapping_add"] = _wa


# ------------------------------------------------------------------ strings
@model("String::new", "String::with_capacity")
def _snew(c, st):
    return [(T("str", ""), st)]


@model("String::push_str", "String::push", "AddAssign::add_assign")
def _push_str(c, st):
    v = argv(c, st, 0)
    x = restrict(c.e, st, argv(c, st, 1))
    c.setref(st, 0, cat(v, x))
    return [(UNIT, st)]


@model("Add::add")
def _sadd(c, st):
    return [(cat(argv(c, st, 0), argv(c, st, 1)), st)]


@model("String::insert", "String::insert_str", "String::truncate", "String::clear", "String::pop", "String::remove", "String::retain")
def _smut(c, st):
    nm = short(c.info["path"])
    v = argv(c, st, 0)
    if nm == "String::clear":
        c.setref(st, 0, T("str", ""))
        return [(UNIT, st)]
    if nm in ("String::insert", "String::insert_str"):
        pos = argv(c, st, 1)
        x = argv(c, st, 2)
        if pos is ZERO:
            c.setref(st, 0, cat(x, v))
        else:
            c.setref(st, 0, app("sinsert", v, x))
        return [(UNIT, st)]
    if nm == "String::pop":
        c.setref(st, 0, app("spop", v))
        s0 = st.copy()
        return [(NONE, s0), (some(T("chr", v, c.fresh("ch"))), st)]
    c.setref(st, 0, app(nm, v))
    return [(c.fresh("smut"), st)]


@model("str::replace", "str::replacen")
def _sreplace(c, st):
    v, a, b = argv(c, st, 0), argv(c, st, 1), argv(c, st, 2)
    if a.op == "char":
        a = T("str", a.a[0])
    if v.op == "str" and a.op == "str" and b.op == "str" and short(c.info["path"]) == "str::replace":
        return [(T("str", v.a[0].replace(a.a[0], b.a[0])), st)]
    nm = "replace" if short(c.info["path"]) == "str::replace" else "replacen"
    return [(T(nm, v, a, b), st)]


@model("str::to_lowercase", "str::to_uppercase", "str::trim", "str::trim_end", "str::trim_start", "str::to_ascii_lowercase",
       "str::to_ascii_uppercase")
def _strf(c, st):
    v = argv(c, st, 0)
    nm = short(c.info["path"])
    if v.op == "str":
        f = {"str::to_lowercase": str.lower, "str::to_uppercase": str.upper, "str::trim": str.strip, "str::trim_end": str.rstrip, "str::trim_start": str.lstrip,
             "str::to_ascii_lowercase": str.lower, "str::to_ascii_uppercase": str.upper}[nm]
        return [(T("str", f(v.a[0])), st)]
    return [(app(nm, v), st)]


@model("str::trim_start_matches", "str::trim_end_matches", "str::trim_matches", "str::trim_left_matches")
def _trimm(c, st):
    return [(app(short(c.info["path"]), argv(c, st, 0), argv(c, st, 1)), st)]


@model("str::is_empty", "String::is_empty", "Vec::is_empty", "slice::is_empty", "HashSet::is_empty", "BTreeMap::is_empty",
       "HashMap::is_empty", "VecDeque::is_empty", "BTreeSet::is_empty", "ExactSizeIterator::is_empty")
def _is_empty(c, st):
    v = argv(c, st, 0)
    if v.op == "str":
        return [(TRUE if v.a[0] == "" else FALSE, st)]
    if v.op == "cv" and v.a[0].op == "elems" and not v.a[0].a:
        return [(TRUE, st)]
    return [(ieq(length(c.e, st, v), ZERO), st)]


@model("str::len", "String::len", "Vec::len", "slice::len", "HashSet::len", "BTreeMap::len", "HashMap::len", "VecDeque::len",
       "ExactSizeIterator::len", "BTreeSet::len", "Sentence::len")
def _len(c, st):
    v = argv(c, st, 0)
    if v.op == "cv" and v.a[0].op == "elems" and not v.a[0].a:
        return [(ZERO, st)]
    return [(length(c.e, st, v), st)]


@model("str::starts_with", "str::ends_with", "str::contains", "slice::contains", "Vec::contains", "str::eq_ignore_ascii_case",
       "HashSet::contains", "HashMap::contains_key", "BTreeMap::contains_key", "BTreeSet::contains", "VecDeque::contains",
       "char::is_whitespace", "char::is_alphabetic", "char::is_numeric", "char::is_ascii_digit", "char::is_digit", "Range::contains",
       "char::is_alphanumeric")
def _pred(c, st):
    nm = short(c.info["path"])
    vs = [argv(c, st, i) for i in range(len(c.args))]
    if nm == "str::starts_with" and vs[0].op == "str" and vs[1].op in ("str", "char"):
        return [(TRUE if vs[0].a[0].startswith(vs[1].a[0]) else FALSE, st)]
    if nm == "str::starts_with" and vs[0].op == "cat" and vs[0].a[0].op == "str" and vs[1].op in ("str", "char"):
        s0 = vs[0].a[0].a[0]
        p = vs[1].a[0]
        if len(s0) >= len(p):
            return [(TRUE if s0.startswith(p) else FALSE, st)]
    if nm == "Range::contains" and vs[0].op == "agg":
        lo, hi = vs[0].a[2][0], vs[0].a[2][1]
        out = []
        for t1, s1 in c.e.branch(st, lt(vs[1], lo), c.fr, c.line):
            if t1:
                out.append((FALSE, s1))
                continue
            for t2, s2 in c.e.branch(s1, lt(vs[1], hi), c.fr, c.line):
                out.append((TRUE if t2 else FALSE, s2))
        return out
    vs = [T("str", x.a[0]) if x.op == "char" else x for x in vs]
    return [(app(nm, *[T("lam", x.a[0]) if x.op == "closure" else x for x in vs]), st)]


@model("str::find", "str::rfind")
def _sfind(c, st):
    v = argv(c, st, 0)
    p = argv(c, st, 1)
    if p.op == "char":
        p = T("str", p.a[0])
    t = T("find", short(c.info["path"]), v, p if p.op != "closure" else T("lam", p.a[0]))
    out = []
    for d, x, s in cases(c.e, st, T("optof", t), OPT, c.fr, c.line):
        if d == 1:
            s.facts[T("inbounds", v, t)] = True
        out.append((some(t) if d == 1 else NONE, s))
    return out


@model("str::split", "str::splitn", "str::split_whitespace", "str::rsplit", "str::rsplitn", "str::split_terminator", "str::split_ascii_whitespace",
       "str::split_inclusive")
def _split(c, st):
    nm = short(c.info["path"])
    v = argv(c, st, 0)
    if nm in ("str::split_whitespace", "str::split_ascii_whitespace"):
        return [(T("it", "ws", v, UNIT, 0), st)]
    p = argv(c, st, len(c.args) - 1)
    if p.op == "char":
        p = T("str", p.a[0])
    if p.op == "closure":
        p = T("lam", p.a[0])
    if nm == "str::split":
        return [(T("it", "split", v, p, 0), st)]
    if nm == "str::splitn":
        return [(T("it", "splitn", v, T("tup", (argv(c, st, 1), p)), 0), st)]
    return [(T("it", "split", v, T("tup", (T("str", nm), p)), 0), st)]


@model("str::split_once", "str::rsplit_once")
def _split_once(c, st):
    v = argv(c, st, 0)
    p = argv(c, st, 1)
    if p.op == "char":
        p = T("str", p.a[0])
    nm = short(c.info["path"])
    out = []
    t = T("optof", T(nm, v, p))
    for d, x, s in cases(c.e, st, t, OPT, c.fr, c.line):
        out.append((some(tup(T("piece", nm, v, p, 0), T("piece", nm, v, p, 1))) if d == 1 else NONE, s))
    return out


@model("str::split_at")
def _split_at(c, st):
    v, i = argv(c, st, 0), argv(c, st, 1)
    c.e.h.on_event(c.e, st, "strindex", {"v": v, "idx": i}, c.fr, c.line)
    return [(tup(T("substr", v, ZERO, i), T("substr", v, i, T("end"))), st)]


@model("str::strip_prefix", "str::strip_suffix")
def _strip(c, st):
    v, p = argv(c, st, 0), argv(c, st, 1)
    if p.op == "char":
        p = T("str", p.a[0])
    nm = short(c.info["path"])
    t = app("str::starts_with" if "prefix" in nm else "str::ends_with", v, p)
    out = []
    for truth, s in c.e.branch(st, t, c.fr, c.line):
        out.append((some(T("stripped", nm, v, p)) if truth else NONE, s))
    return out


@model("str::parse")
def _parse(c, st):
    v = argv(c, st, 0)
    ts = c.targs()
    ty = ts[-1] if ts else "?"
    t = T("parse", v, T("ty", ty))
    if ty == "isize":
        c.e.signed.add(t)
    out = []
    s1 = st.copy()
    for d, x, s in cases(c.e, st, T("resof", t), RES, c.fr, c.line):
        out.append((ok(t) if d == 0 else err(T("parseerr", t)), s))
    return out


@model("str::chars", "str::char_indices", "str::bytes", "str::lines")
def _chars(c, st):
    nm = short(c.info["path"]).split("::")[1]
    return [(T("it", nm, argv(c, st, 0)), st)]


@model("str::repeat")
def _repeat(c, st):
    v = argv(c, st, 0)
    n = argv(c, st, 1)
    return [(blanks(c.e, st, T("it", "range", ZERO, n), [v]), st)]


@model("iter::repeat", "repeat::repeat")
def _irepeat(c, st):
    return [(T("it", "endless", argv(c, st, 0)), st)]


@model("slice::join", "Itertools::join", "slice::concat", "Join::join")
def _join(c, st):
    e = c.e
    v = argv(c, st, 0)
    it = as_it(e, st, v)
    sep = argv(c, st, 1) if len(c.args) > 1 else T("str", "")
    if it.op == "it" and it.a[0] == "arr" and it.a[1].op == "arr" and len(it.a[1].a[0]) <= 12:
        ps = []
        for x in it.a[1].a[0]:
            if ps:
                ps.append(sep)
            ps.append(e.val(st, x))
        return [(cat(*ps), st)]
    es = set()
    for x, s, _ in draw(c, st.copy(), it, "jn"):
        if x is not None:
            es.add(skeleton(e.val(s, x)))
    es = sorted(es, key=lambda t: t.id) if 0 < len(es) <= 8 else [ANY]
    return [(T("joined", sep, freeze(e, st, it), *es), st)]


@model("String::from_utf8", "str::from_utf8")
def _utf8(c, st):
    v = argv(c, st, 0)
    out = []
    for d, x, s in cases(c.e, st, T("resof", app("utf8", v)), RES, c.fr, c.line):
        out.append((ok(v) if d == 0 else err(x), s))
    return out


# formatting
@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex")
def _farg(c, st):
    e = c.e
    nm = short(c.info["path"])
    v = argv(c, st, 0)
    ts = strip_ref(ty_str(c, 0))
    if nm.endswith("display"):
        k = display_body(e, ts)
        if k is not None:
            return [(T("disp", T("ty", ts), v), st)]
        return [(disp(e, v, ts), st)]
    return [(T("dbg", v), st)]


def display_body(e, ts):
    for k, b in e.p.bodies.items():
        if b["path"].endswith("::fmt") and "fmt::Display for" in b["path"].replace(" as core::", " "):
            pass
    return None


@model("Arguments::new", "Arguments::new_v1", "Arguments::new_const")
def _fargs(c, st):
    tpl = argv(c, st, 0)
    args = argv(c, st, 1)
    if tpl.op != "bytes" or args.op != "arr":
        return [(T("fmtx", tpl, args), st)]
    bs = list(tpl.a[0])
    av = [c.e.val(st, x) for x in args.a[0]]
    out = []
    i = 0
    ai = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(T("str", bytes(bs[i:i + b]).decode("utf-8", "replace")))
            i += b
        elif b == 0x80:
            n = bs[i] | (bs[i + 1] << 8)
            i += 2
            out.append(T("str", bytes(bs[i:i + n]).decode("utf-8", "replace")))
            i += n
        elif b >= 0xC0:
            fl = b & 0x3F
            spec = None
            if fl & 1:
                spec = tuple(bs[i:i + 4])
                i += 4
            if fl & 2:
                i += 2
                spec = (spec, "w")
            if fl & 4:
                i += 2
                spec = (spec, "p")
            if fl & 8:
                ai = bs[i] | (bs[i + 1] << 8)
                i += 2
            x = av[ai] if ai < len(av) else T("unk")
            ai += 1
            if spec is not None:
                x = T("padded", x, str(spec))
            out.append(x)
        else:
            return [(T("fmtx", tpl, args), st)]
    return [(cat(*out), st)]


@model("Arguments::from_str", "Arguments::as_str", "fmt::format", "Arguments::from_static_str")
def _fid(c, st):
    return [(argv(c, st, 0), st)]


@model("Write::write_fmt", "Write::write_all", "Write::write", "Formatter::write_fmt", "Formatter::write_str", "Write::write_str")
def _wfmt(c, st):
    v = argv(c, st, 1)
    if re.sub(r"^&(?:mut )?(?:&mut )*", "", ty_str(c, 0)).endswith("string::String") or (c.targs() and c.targs()[0].endswith("string::String")):
        # text written to a String is appended to it
        r = c.args[0]
        cur = argv(c, st, 0)
        n = 0
        while cur.op == "ref" and n < 6:
            r, cur = cur, c.e.load(st, cur.a[0], cur.a[1])
            n += 1
        if r.op == "ref":
            root, path = c.e.deref_loc(st, r)
            c.e.store(st, root, path, cat(cur, restrict(c.e, st, v)), c.fr, c.line)
        return [(ok(UNIT), st)]
    s1 = st.copy()
    c.e.h.on_event(c.e, st, "write", {"v": v, "w": c.args[0], "ok": True}, c.fr, c.line)
    c.e.h.on_event(c.e, s1, "write", {"v": v, "w": c.args[0], "ok": False}, c.fr, c.line)
    return [(ok(UNIT), st), (err(T("ioerr", c.fresh("we"))), s1)]


@model("Write::flush")
def _flush(c, st):
    s1 = st.copy()
    return [(ok(UNIT), st), (err(T("ioerr", c.fresh("we"))), s1)]


@model("stdio::_eprint", "stdio::_print", "io::_eprint", "io::_print")
def _eprint(c, st):
    c.e.h.on_event(c.e, st, "print", {"v": argv(c, st, 0), "name": short(c.info["path"])}, c.fr, c.line)
    return [(UNIT, st)]


@model("error_message::err_msg", "failure::err_msg", "Error::from")
def _errmsg(c, st):
    return [(T("error", argv(c, st, 0)), st)]


# ------------------------------------------------------------------ Vec / slices / maps
@model("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity")
def _vnew(c, st):
    return [(cv_new(), st)]


@model("Vec::push", "VecDeque::push_back", "VecDeque::push_front", "Vec::insert")
def _vpush(c, st):
    e = c.e
    nm = short(c.info["path"])
    v = argv(c, st, 0)
    x = c.args[-1]
    ev = e.h.on_event(e, st, "push", {"v": v, "x": x}, c.fr, c.line)
    c.setref(st, 0, cv_add(e, v, freeze(e, st, x), "push" if nm in ("Vec::push", "VecDeque::push_back") else "mix", st))
    return [(UNIT, st)]


@model("Vec::pop", "VecDeque::pop_front", "VecDeque::pop_back", "Vec::remove", "Vec::swap_remove", "VecDeque::remove")
def _vpop(c, st):
    e = c.e
    nm = short(c.info["path"])
    v = argv(c, st, 0)
    if nm in ("Vec::remove", "Vec::swap_remove"):
        e.h.on_event(e, st, "vtake", {"v": v, "idx": argv(c, st, 1)}, c.fr, c.line)
    if v.op == "cv":
        if v.a[0].op == "elems" and not v.a[0].a:
            return [(NONE, st)]
        out = []
        if nm not in ("Vec::remove", "Vec::swap_remove"):
            out.append((NONE, st.copy()))
        for x, s in draw_cv(c, st, v, "pop"):
            out.append((some(x) if nm not in ("Vec::remove", "Vec::swap_remove") else x, s))
        return out
    x = T("el", v, c.fresh("pop"))
    if nm in ("Vec::remove", "Vec::swap_remove"):
        return [(x, st)]
    return [(NONE, st.copy()), (some(x), st)]


@model("Vec::clear", "Vec::truncate", "HashSet::clear", "HashMap::clear", "VecDeque::clear")
def _vclear(c, st):
    v = argv(c, st, 0)
    if v.op == "cv":
        if short(c.info["path"]) == "Vec::clear":
            c.setref(st, 0, cv_new())
    else:
        c.setref(st, 0, c.fresh("clr"))
    return [(UNIT, st)]


@model("Vec::retain")
def _retain(c, st):
    e = c.e
    v = argv(c, st, 0)
    if v.op == "cv":
        it = T("it", "filter", T("it", "cv", v), freeze(e, st, c.args[1]))
        c.setref(st, 0, T("cv", T("coll", it), v.a[1]))
        return [(UNIT, st)]
    c.setref(st, 0, c.fresh("ret"))
    return [(UNIT, st)]


@model("slice::first", "slice::last", "Vec::first", "Vec::last", "slice::get", "Vec::get", "VecDeque::front", "VecDeque::back", "slice::last_mut",
       "slice::first_mut", "slice::get_mut", "slice::split_first", "slice::split_last")
def _first(c, st):
    e = c.e
    nm = short(c.info["path"]).split("::")[1]
    v = argv(c, st, 0)
    if v.op == "cv" and v.a[0].op == "elems" and not v.a[0].a:
        return [(NONE, st)]
    i = c.args[1] if len(c.args) > 1 else UNIT
    t = T("seqat", nm, v, i)
    out = []
    if nm in ("first", "get"):
        r = nth_of(c, st, v, ZERO if nm == "first" else e.val(st, i), "get")
        if r is not None:
            return [(NONE if x is None else some(x), s) for x, s in r]
    ln = length(e, st, v)
    if nm in ("first", "last"):
        # present exactly when the sequence is non-empty
        for truth, s in e.branch(st, ieq(ln, ZERO), c.fr, c.line):
            out.append((NONE if truth else some(t), s))
        return out
    if nm in ("split_first", "split_last"):
        return [(NONE, st.copy()), (some(tup(t, T("cv", T("elems", T("el", v, HOLE)), NAT))), st)]
    if v.op == "cv" and nm == "get":
        out = [(NONE, st.copy())]
        for x, s in draw_cv(c, st, v, "get"):
            out.append((some(x), s))
        return out
    for d, x, s in cases(e, st, T("optof", t), OPT, c.fr, c.line):
        out.append((some(t) if d == 1 else NONE, s))
    return out


@model("slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key",
       "slice::reverse")
def _sort(c, st):
    e = c.e
    nm = short(c.info["path"]).split("::")[1]
    root, path = e.deref_loc(st, c.args[0])
    v = e.load(st, root, path)
    if nm == "reverse":
        order = T("ord", "rev", v.a[1]) if v.op == "cv" else T("ord", "rev")
    elif nm in ("sort", "sort_unstable"):
        order = T("ord", "natural")
    else:
        f = freeze(e, st, c.args[1])
        order = T("ord", "key" if "key" in nm else "cmp", f)
    if v.op == "cv":
        nv = T("cv", v.a[0], order)
    else:
        nv = T("cv", T("elems", T("el", v, HOLE)), order)
    e.store(st, root, path, nv, c.fr, c.line)
    return [(UNIT, st)]


@model("slice::swap", "Vec::dedup", "slice::dedup", "Vec::reserve", "Vec::shrink_to_fit", "Vec::dedup_by_key")
def _noop(c, st):
    nm = short(c.info["path"])
    if nm == "slice::swap":
        v = argv(c, st, 0)
        if v.op == "cv":
            c.setref(st, 0, T("cv", v.a[0], T("ord", "mixed")))
    return [(UNIT, st)]


@model("vec::from_elem")
def _from_elem(c, st):
    return [(T("cv", T("elems", skeleton(c.args[0])), T("ord", "fill", c.args[1])), st)]


@model("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec", "boxed::box_new")
def _boxvec(c, st):
    e = c.e
    v = e.val(st, c.args[0])
    if v.op == "arr":
        es = {skeleton(freeze(e, st, x)) for x in v.a[0]}
        return [(T("cv", T("elems", *sorted(es, key=lambda t: t.id)), NAT), st)]
    return [(T("cv", T("elems", ANY), NAT), st)]


@model("Box::new")
def _box(c, st):
    return [(c.args[0], st)]


@model("Box::new_uninit")
def _boxun(c, st):
    return [(T("uninit"), st)]


@model("Index::index", "IndexMut::index_mut")
def _index(c, st):
    e = c.e
    nm = short(c.info["path"])
    full_ = c.info.get("rpath") or c.info["path"]
    ts = strip_ref(ty_str(c, 0))
    idx = e.val(st, c.args[1])
    if "StableGraph" in ts or "stable_graph" in full_:
        g = argv(c, st, 0)
        kind = "E" if "EdgeIndex" in full_ or "EdgeIndex" in ty_str(c, 1) else "N"
        e.h.on_event(e, st, "gindex", {"g": g, "kind": kind, "idx": idx, "mut": nm.endswith("mut")}, c.fr, c.line)
        return [(T("ref", T(kind, g, idx), ()), st)]
    if "HashMap" in ts or "BTreeMap" in ts:
        e.h.on_event(e, st, "mindex", {"m": argv(c, st, 0), "k": idx}, c.fr, c.line)
        return [(T("mget", argv(c, st, 0), idx), st)]
    v = argv(c, st, 0)
    if ts.endswith("str") or ts.endswith("String"):
        e.h.on_event(e, st, "strindex", {"v": v, "idx": idx}, c.fr, c.line)
        if idx.op == "agg":
            k = idx.a[0].split("::")[-1]
            if k == "RangeTo":
                return [(T("substr", v, ZERO, idx.a[2][0]), st)]
            if k == "RangeFrom":
                return [(T("substr", v, idx.a[2][0], T("end")), st)]
            if k == "Range":
                return [(T("substr", v, idx.a[2][0], idx.a[2][1]), st)]
        return [(T("substr", v, idx, UNIT), st)]
    root, path = e.deref_loc(st, c.args[0])
    e.h.on_event(e, st, "vindex", {"v": v, "idx": idx, "mut": nm.endswith("mut")}, c.fr, c.line)
    if nm.endswith("mut"):
        return [(T("ref", root, path + (("ix", idx),)), st)]
    r = nth_of(c, st, v, idx, "ix")
    if r is not None and any(x is not None for x, s in r):
        return [(x, s) for x, s in r if x is not None]
    if v.op == "cv":
        out = []
        for x, s in draw_cv(c, st, v, "ix"):
            out.append((x, s))
        return out
    return [(T("at", v, idx), st)]


@model("HashMap::new", "HashSet::new", "BTreeMap::new", "BTreeSet::new", "HashMap::with_capacity", "HashSet::with_capacity",
       "HashMap::default", "HashSet::default")
def _hnew(c, st):
    nm = short(c.info["path"])
    if "Set" in nm:
        return [(T("hset", T("emptyset", c.fresh("set"))), st)]
    return [(T("emptymap", c.fresh("map")), st)]


@model("HashMap::insert", "BTreeMap::insert")
def _hins(c, st):
    e = c.e
    root, path = e.deref_loc(st, c.args[0])
    m = e.load(st, root, path)
    k, v = e.val(st, c.args[1]), c.args[2]
    e.h.on_event(e, st, "minsert", {"m": m, "k": k, "v": v, "root": root}, c.fr, c.line)
    old = T("mget", m, k)
    e.store(st, root, path, T("mapv", c.fresh("map")), c.fr, c.line)
    st.facts[T("haskey", e.load(st, root, path), k)] = True
    s1 = st.copy()
    return [(NONE, st), (some(old), s1)]


@model("HashSet::insert", "BTreeSet::insert")
def _hsins(c, st):
    e = c.e
    root, path = e.deref_loc(st, c.args[0])
    e.store(st, root, path, hset_add(c, st, e.load(st, root, path), argv(c, st, 1)), c.fr, c.line)
    e.h.on_event(e, st, "sinsert", {"x": c.args[1]}, c.fr, c.line)
    t = app("newly", c.fresh("ins"))
    return [(t, st)]


@model("HashSet::remove", "BTreeSet::remove")
def _hsrem(c, st):
    e = c.e
    root, path = e.deref_loc(st, c.args[0])
    t = app("HashSet::contains", e.load(st, root, path), argv(c, st, 1))
    e.store(st, root, path, T("hset", c.fresh("set")), c.fr, c.line)
    return [(t, st)]


@model("HashMap::remove", "BTreeMap::remove")
def _hrem(c, st):
    e = c.e
    root, path = e.deref_loc(st, c.args[0])
    m = e.load(st, root, path)
    k = argv(c, st, 1)
    out = []
    for d, x, s in cases(e, st, T("optof", T("mget", m, k)), OPT, c.fr, c.line):
        e.store(s, root, path, T("mapv", c.fresh("mrem%d" % d)) if d == 1 else m, c.fr, c.line, quiet=(d == 0))
        out.append((some(T("mget", m, k)) if d == 1 else NONE, s))
    return out


@model("HashMap::get", "BTreeMap::get", "HashMap::get_mut", "BTreeMap::get_mut", "HashMap::get_key_value")
def _hget(c, st):
    e = c.e
    m = argv(c, st, 0)
    k = argv(c, st, 1)
    t = T("mget", m, k)
    if short(c.info["path"]).endswith("_mut"):
        root, path = e.deref_loc(st, c.args[0])
        out = []
        for d, x, s in cases(e, st, T("optof", t), OPT, c.fr, c.line):
            if d != 1:
                e.h.on_event(e, s, "missing", {"m": m, "k": k}, c.fr, c.line)
            out.append((some(T("ref", root, path + (("ix", k),))) if d == 1 else NONE, s))
        return out
    out = []
    for d, x, s in cases(e, st, T("optof", t), OPT, c.fr, c.line):
        if d != 1:
            e.h.on_event(e, s, "missing", {"m": m, "k": k}, c.fr, c.line)
        out.append((some(t) if d == 1 else NONE, s))
    return out


ENTRY = "std::collections::hash::map::Entry"


@model("HashMap::entry", "BTreeMap::entry")
def _entry(c, st):
    e = c.e
    root, path = e.deref_loc(st, c.args[0])
    k = argv(c, st, 1)
    m = e.load(st, root, path)
    return [(T("entry", T("ref", root, path), k), st)]


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def _or_ins(c, st):
    e = c.e
    v = argv(c, st, 0)
    if v.op == "entry":
        r, k = v.a
        m = e.load(st, r.a[0], r.a[1])
        e.h.on_event(e, st, "or_insert", {"m": m, "k": k, "v": c.args[1] if len(c.args) > 1 else None}, c.fr, c.line)
        s1 = st.copy()
        e.store(s1, r.a[0], r.a[1], T("mapv", c.fresh("map")), c.fr, c.line)
        nv = c.args[1] if len(c.args) > 1 else T("dflt")
        if short(c.info["path"]) == "Entry::or_insert_with":
            outs = [(T("ref", T("V", r2), ()), s2) for r2, s2 in c.call(s1, c.args[1], [], "oi")]
        else:
            outs = [(T("ref", T("V", nv), ()), s1)]
        return [(T("ref", T("V", T("mget", m, k)), ()), st)] + outs
    return [(c.fresh("oi"), st)]


@model("OccupiedEntry::get", "OccupiedEntry::into_mut", "OccupiedEntry::get_mut")
def _oget(c, st):
    return [(T("entryval", argv(c, st, 0)), st)]


@model("VacantEntry::insert")
def _vins(c, st):
    e = c.e
    v = argv(c, st, 0)
    # v = fld(entry(ref, k), Vacant, 0)
    t = v
    while t.op == "fld":
        t = t.a[0]
    if t.op == "entry":
        r, k = t.a
        e.h.on_event(e, st, "minsert", {"m": e.load(st, r.a[0], r.a[1]), "k": k, "v": c.args[1], "root": r.a[0]}, c.fr, c.line)
        e.store(st, r.a[0], r.a[1], T("mapv", c.fresh("map")), c.fr, c.line)
    return [(T("ref", T("V", c.args[1]), ()), st)]


# ------------------------------------------------------------------ graph
def gid(c, st):
    return argv(c, st, 0)


def direction(c, st, i):
    v = argv(c, st, i)
    if v.op == "agg":
        return v.a[1]
    return 2


def sv(st, g, kind):
    return st.sv.get((g, kind), UNIT)


def touch(c, st, g, kind):
    st.sv[(g, kind)] = T("st", c.fr.fid, c.b, kind)


@model("StableGraph::new", "StableGraph::with_capacity", "StableGraph::default")
def _gnew(c, st):
    return [(T("graph", c.fr.fid, c.b), st)]


@model("StableGraph::add_node")
def _add_node(c, st):
    g = gid(c, st)
    n = c.fresh("newnode")
    w = argv(c, st, 1)
    st.mem[T("N", g, n)] = w
    touch(c, st, g, "nodes")
    c.e.h.on_event(c.e, st, "add_node", {"g": g, "idx": n, "w": w}, c.fr, c.line)
    return [(n, st)]


@model("StableGraph::add_edge", "StableGraph::update_edge")
def _add_edge(c, st):
    e = c.e
    g = gid(c, st)
    ed = c.fresh("newedge")
    a, b, w = argv(c, st, 1), argv(c, st, 2), argv(c, st, 3)
    st.mem[T("E", g, ed)] = w
    st.mem[T("SRC", g, ed)] = a
    st.mem[T("TGT", g, ed)] = b
    st.facts[T("has", g, "E", ed)] = True
    e.h.on_event(e, st, "add_edge", {"g": g, "src": a, "tgt": b, "w": w, "idx": ed}, c.fr, c.line)
    touch(c, st, g, "edges")
    return [(ed, st)]


def src_of(st, g, ed):
    return st.mem.get(T("SRC", g, ed)) or T("src", g, ed)


def tgt_of(st, g, ed):
    return st.mem.get(T("TGT", g, ed)) or T("tgt", g, ed)


@model("StableGraph::remove_edge")
def _remove_edge(c, st):
    e = c.e
    g = gid(c, st)
    ed = argv(c, st, 1)
    w = e.load(st, T("E", g, ed), ())
    e.h.on_event(e, st, "remove_edge", {"g": g, "idx": ed, "w": w, "src": src_of(st, g, ed), "tgt": tgt_of(st, g, ed)}, c.fr, c.line)
    touch(c, st, g, "edges")
    return [(some(w), st)]


@model("StableGraph::remove_node")
def _remove_node(c, st):
    e = c.e
    g = gid(c, st)
    n = argv(c, st, 1)
    w = e.load(st, T("N", g, n), ())
    e.h.on_event(e, st, "remove_node", {"g": g, "idx": n, "w": w}, c.fr, c.line)
    touch(c, st, g, "edges")
    touch(c, st, g, "nodes")
    return [(some(w), st)]


@model("StableGraph::clear", "StableGraph::clear_edges", "StableGraph::retain_edges", "StableGraph::retain_nodes", "StableGraph::reverse")
def _gclear(c, st):
    g = gid(c, st)
    c.e.h.on_event(c.e, st, "graph_other", {"g": g, "name": short(c.info["path"])}, c.fr, c.line)
    touch(c, st, g, "edges")
    touch(c, st, g, "nodes")
    return [(UNIT, st)]


@model("StableGraph::edge_endpoints")
def _endpoints(c, st):
    e = c.e
    g = gid(c, st)
    ed = argv(c, st, 1)
    out = []
    for truth, s in e.branch(st, T("has", g, "E", ed), c.fr, c.line):
        out.append((some(tup(src_of(s, g, ed), tgt_of(s, g, ed))) if truth else NONE, s))
    return out


@model("StableGraph::edge_weight", "StableGraph::edge_weight_mut", "StableGraph::node_weight", "StableGraph::node_weight_mut")
def _weight(c, st):
    e = c.e
    g = gid(c, st)
    i = argv(c, st, 1)
    kind = "E" if "edge" in short(c.info["path"]) else "N"
    out = []
    for truth, s in e.branch(st, T("has", g, kind, i), c.fr, c.line):
        out.append((some(T("ref", T(kind, g, i), ())) if truth else NONE, s))
    return out


@model("StableGraph::contains_node")
def _contains(c, st):
    return [(T("has", gid(c, st), "N", argv(c, st, 1)), st)]


@model("StableGraph::contains_edge", "StableGraph::find_edge")
def _contains_edge(c, st):
    nm = short(c.info["path"])
    g, a, b = gid(c, st), argv(c, st, 1), argv(c, st, 2)
    t = app(nm, g, a, b, sv(st, g, "edges"))
    if nm.endswith("find_edge"):
        ed = T("el", T("it", "edges", g, a, 0, sv(st, g, "edges")), c.fresh("fe"))
        s0 = st.copy()
        st.mem[T("SRC", g, ed)] = a
        st.mem[T("TGT", g, ed)] = b
        st.facts[T("has", g, "E", ed)] = True
        return [(NONE, s0), (some(ed), st)]
    return [(t, st)]


@model("StableGraph::node_count", "StableGraph::edge_count")
def _ncount(c, st):
    g = gid(c, st)
    k = "nodes" if "node" in short(c.info["path"]) else "edges"
    return [(T("gcount", g, k, sv(st, g, k)), st)]


@model("StableGraph::node_indices")
def _nidx(c, st):
    g = gid(c, st)
    return [(T("it", "nodes", g, sv(st, g, "nodes")), st)]


@model("StableGraph::edge_indices")
def _eidx(c, st):
    g = gid(c, st)
    return [(T("it", "edgeidx", g, sv(st, g, "edges")), st)]


@model("StableGraph::edges_directed", "StableGraph::edges")
def _edges(c, st):
    g = gid(c, st)
    n = argv(c, st, 1)
    d = direction(c, st, 2) if len(c.args) > 2 else 0
    return [(T("it", "edges", g, n, d, sv(st, g, "edges")), st)]


@model("StableGraph::neighbors_directed", "StableGraph::neighbors", "StableGraph::neighbors_undirected")
def _neigh(c, st):
    g = gid(c, st)
    n = argv(c, st, 1)
    d = direction(c, st, 2) if len(c.args) > 2 else (0 if short(c.info["path"]).endswith("neighbors") else 2)
    c.e.h.on_event(c.e, st, "neighbors", {"g": g, "n": n, "dir": d}, c.fr, c.line)
    return [(T("it", "neigh", g, n, d, sv(st, g, "edges")), st)]


@model("StableGraph::externals")
def _externals(c, st):
    g = gid(c, st)
    c.e.h.on_event(c.e, st, "neighbors", {"g": g, "n": UNIT, "dir": 2}, c.fr, c.line)
    return [(T("it", "neigh", g, UNIT, 2, sv(st, g, "edges")), st)]


@model("EdgeReference::weight", "EdgeRef::weight")
def _ew(c, st):
    v = argv(c, st, 0)
    if v.op == "eref":
        return [(T("ref", T("E", v.a[0], v.a[1]), ()), st)]
    return [(app("weight", v), st)]


@model("EdgeRef::source", "EdgeRef::target", "EdgeRef::id")
def _eref(c, st):
    v = argv(c, st, 0)
    nm = short(c.info["path"]).split("::")[1]
    if v.op == "eref":
        g, ed = v.a
        return [({"source": src_of(st, g, ed), "target": tgt_of(st, g, ed), "id": ed}[nm], st)]
    return [(app(nm, v), st)]


@model("Visitable::visit_map")
def _vm(c, st):
    return [(T("vmap", c.fresh("vm")), st)]


@model("VisitMap::visit")
def _visit(c, st):
    e = c.e
    root, path = e.deref_loc(st, c.args[0])
    m = e.load(st, root, path)
    n = argv(c, st, 1)
    t = neg(app("visited", m, n))
    e.h.on_event(e, st, "visit", {"m": m, "n": n}, c.fr, c.line)
    if root.op != "V":
        e.store(st, root, path, T("vmap", c.fresh("vm")), c.fr, c.line, quiet=True)
    return [(t, st)]


@model("VisitMap::is_visited")
def _isv(c, st):
    return [(app("visited", argv(c, st, 0), argv(c, st, 1)), st)]


@model("Dfs::new", "DfsPostOrder::new", "Bfs::new", "Topo::new")
def _dfsnew(c, st):
    nm = short(c.info["path"]).split("::")[0]
    g = argv(c, st, 0)
    raw = g.op != "agg"
    gg = g
    while gg.op == "agg" and gg.a[2]:
        gg = c.e.val(st, gg.a[2][0])
    c.e.h.on_event(c.e, st, "dfs", {"g": gg, "raw": raw, "name": nm, "ty": ty_str(c, 0)}, c.fr, c.line)
    return [(T("dfs", nm, gg, argv(c, st, 1), "raw" if raw else "wrapped"), st)]


@model("Dfs::next", "DfsPostOrder::next", "Bfs::next")
def _dfsnext(c, st):
    e = c.e
    d = argv(c, st, 0)
    g = argv(c, st, 1)
    raw = g.op != "agg"
    gg = g
    while gg.op == "agg" and gg.a[2]:
        gg = e.val(st, gg.a[2][0])
    e.h.on_event(e, st, "dfs", {"g": gg, "raw": raw, "name": "next", "ty": ty_str(c, 1)}, c.fr, c.line)
    x = T("el", T("it", "dfs", d), c.fresh("dfsn"))
    s0 = st.copy()
    e.h.on_event(e, s0, "exhausted", {"it": T("it", "dfs", d)}, c.fr, c.line)
    e.h.on_event(e, st, "draw", {"it": T("it", "dfs", d), "x": x}, c.fr, c.line)
    return [(NONE, s0), (some(x), st)]


# ------------------------------------------------------------------ closures, io, misc
@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _call(c, st):
    tupv = argv(c, st, 1)
    args = list(tupv.a[0]) if tupv.op == "tup" else [tupv]
    return c.call(st, c.args[0], args, "dyn")


@model("BufRead::lines")
def _lines(c, st):
    return [(T("it", "iolines", argv(c, st, 0)), st)]


@model("iter::empty", "empty::empty")
def _empty(c, st):
    return [(T("it", "empty"), st)]


@model("iter::once", "once::once")
def _once(c, st):
    return [(T("it", "once", c.args[0]), st)]


@model("iter::successors", "iter::from_fn", "successors::successors", "from_fn::from_fn")
def _succ(c, st):
    # evaluate the generator once for its effects
    nm = short(c.info["path"])
    return [(T("it", "other", app(nm, *[freeze(c.e, st, a) for a in c.args])), st)]


@model("panicking::begin_panic", "panicking::panic", "panicking::panic_fmt", "panicking::unreachable_display",
       "panicking::assert_failed", "panicking::unreachable_default_msg", "rt::panic_fmt")
def _panic(c, st):
    c.panic(st, "panic")
    return []


@model("Pair::as_rule", "Pair::as_str", "Pair::into_inner", "Pair::as_span")
def _pair(c, st):
    nm = short(c.info["path"])
    v = argv(c, st, 0)
    if nm == "Pair::into_inner":
        return [(T("it", "pest", v), st)]
    return [(app(nm, v), st)]


@model("ArgMatches::is_present", "ArgMatches::value_of", "ArgMatches::values_of")
def _argm(c, st):
    nm = short(c.info["path"])
    t = app(nm, argv(c, st, 1))
    if nm.endswith("is_present"):
        return [(t, st)]
    out = []
    for d, x, s in cases(c.e, st, T("optof", t), OPT, c.fr, c.line):
        out.append((some(t) if d == 1 else NONE, s))
    return out


# tokens of the conllx crate
TOKEN = "conllx::token::Token"


@model("Token::new")
def _tok(c, st):
    return [(T("agg", TOKEN, 0, (argv(c, st, 0), NONE, NONE, NONE)), st)]


@model("Token::set_lemma", "Token::set_pos", "Token::set_features", "Token::set_cpos")
def _tokset(c, st):
    e = c.e
    nm = short(c.info["path"]).split("::")[1]
    i = {"set_lemma": 1, "set_pos": 2, "set_features": 3, "set_cpos": 4}[nm]
    root, path = e.deref_loc(st, c.args[0])
    v = e.load(st, root, path)
    x = full(e, st, c.args[1])
    if v.op == "agg" and v.a[0] == TOKEN:
        fs = list(v.a[2])
        while len(fs) <= i:
            fs.append(NONE)
        old = fs[i]
        fs[i] = x
        e.store(st, root, path, T("agg", TOKEN, 0, tuple(fs)), c.fr, c.line)
        return [(old, st)]
    e.store(st, root, path, T("tokset", nm, v, x), c.fr, c.line)
    return [(c.fresh("tok"), st)]


@model("Token::set_form")
def _tokform(c, st):
    e = c.e
    root, path = e.deref_loc(st, c.args[0])
    v = e.load(st, root, path)
    if v.op == "agg" and v.a[0] == TOKEN:
        fs = list(v.a[2])
        old = fs[0]
        fs[0] = argv(c, st, 1)
        e.store(st, root, path, T("agg", TOKEN, 0, tuple(fs)), c.fr, c.line)
        return [(old, st)]
    return [(c.fresh("tok"), st)]


@model("Token::pos", "Token::lemma", "Token::features")
def _tokget(c, st):
    nm = short(c.info["path"])
    t = app(nm, argv(c, st, 0))
    out = []
    for d, x, s in cases(c.e, st, T("optof", t), OPT, c.fr, c.line):
        out.append((some(t) if d == 1 else NONE, s))
    return out


@model("Sentence::push")
def _spush(c, st):
    e = c.e
    e.h.on_event(e, st, "sentence_push", {"x": full(e, st, c.args[1])}, c.fr, c.line)
    root, path = e.deref_loc(st, c.args[0])
    v = e.load(st, root, path)
    e.store(st, root, path, cv_add(e, v if v.op == "cv" else cv_new(), full(e, st, c.args[1]), "push"), c.fr, c.line, quiet=True)
    return [(UNIT, st)]


@model("Sentence::new")
def _snt(c, st):
    return [(cv_new(), st)]


@model("Sentence::iter")
def _snti(c, st):
    v = argv(c, st, 0)
    return [(T("it", "sentence", v) if v.op != "cv" else as_it(c.e, st, v), st)]


@model("FixedBitSet::clone", "Visitable::reset_map")
def _vmc(c, st):
    if short(c.info["path"]).endswith("reset_map"):
        c.setref(st, 1, T("vmap", c.fresh("vm")))
        return [(UNIT, st)]
    return [(argv(c, st, 0), st)]
