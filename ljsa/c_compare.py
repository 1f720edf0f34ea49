"""C11: comparison operators take every observable part into account."""
import re
from rt import *
from terms import *


# ------------------------------------------------------------------ structural equality
def tkey(p, T_, ty):
    return T_[ty].get("key") if T_[ty]["k"] == "adt" else None


def optional_features(p, T_, ty):
    t = T_[ty]
    return t["k"] == "adt" and t["key"] == OPT and "Features" in t["s"]


def absent(e, st, v, p):
    """the optional features are absent or empty"""
    d = e.discr(st, v)
    if d == 0:
        return True
    if d == 1:
        f = e.proj(v, ("f", 1, 0))
        m = e.proj(f, ("f", 0, 0))
        for x in (m, f):
            if e.evalb(st, ieq(T("len", x), ZERO)) is True:
                return True
    return False


def equal(e, st, a, b, p, T_, ty, depth=0):
    """do the facts of this state say that the two values are equal"""
    if a is b:
        return True
    if e.evalb(st, eqv(a, b)) is True:
        return True
    t = T_[ty]
    if t["k"] in ("uint", "int") and e.evalb(st, ieq(a, b)) is True:
        return True
    if optional_features(p, T_, ty):
        if absent(e, st, a, p) and absent(e, st, b, p):
            return True
    if depth > 4:
        return False
    if t["k"] == "adt" and t["key"] in p.adts:
        ad = p.adts[t["key"]]
        nv = len(ad["variants"])
        if t["key"] == OPT or not ad.get("local"):
            da, db = e.discr(st, a), e.discr(st, b)
            if nv > 1 and da is not None and da == db:
                if da == 0 and t["key"] == OPT:
                    return True
                return opt_payload(e, st, a, b, p, T_, t, depth)
            return False
        if nv == 1:
            return all(equal(e, st, e.proj(a, ("f", 0, i)), e.proj(b, ("f", 0, i)), p, ad["T"], f["ty"], depth + 1) for i, f in enumerate(ad["variants"][0]["f"]))
        da, db = e.discr(st, a), e.discr(st, b)
        if da is None or da != db:
            return False
        v = e.models and p.adts[t["key"]]
        vi = e.variant_of_discr(t["key"], da)
        return all(equal(e, st, e.proj(a, ("f", vi, i)), e.proj(b, ("f", vi, i)), p, ad["T"], f["ty"], depth + 1) for i, f in enumerate(ad["variants"][vi]["f"]))
    if t["k"] == "adt" and t["key"] == OPT:
        da, db = e.discr(st, a), e.discr(st, b)
        if da is not None and da == db:
            return da == 0 or opt_payload(e, st, a, b, p, T_, t, depth)
    return False


def opt_payload(e, st, a, b, p, T_, t, depth):
    x, y = e.proj(a, ("f", 1, 0)), e.proj(b, ("f", 1, 0))
    if e.evalb(st, eqv(x, y)) is True:
        return True
    args = [i for i in t.get("args") or [] if isinstance(i, int)]
    return bool(args) and equal(e, st, x, y, p, T_, args[0], depth + 1)


class Opaque(Hooks):
    opaque_eq = True
    keep_facts = True


def params(p, k):
    b = p.bodies[k]
    out = []
    for i in range(b["argc"]):
        nm = "a%d" % (i + 1)
        for n, pl in b["names"]:
            if pl[0] == i + 1 and not pl[1]:
                nm = n
        out.append(T("P", nm))
    return out


def struct_eq(r, p, name):
    key = one(p, "adt", r"^\w+(::\w+)*::%s$" % name)
    ad = p.adts[key]
    ks = [k for k, b in p.bodies.items() if re.match(r"^<(\w+::)*%s as core::cmp::PartialEq(<.*>)?>::(eq|ne)$" % name, b["path"])]
    eqs = [k for k in ks if p.bodies[k]["path"].endswith("::eq")]
    if not eqs:
        raise Anchor("PartialEq for " + name)
    for k in ks:
        b = p.bodies[k]
        isne = b["path"].endswith("::ne")
        where = "%s:%s" % (b["file"], b["line"])
        r.count("comparison_operators")
        if b.get("derived"):
            r.ob(True, "", "")
            r.count("derived_operators")
            continue
        ps = params(p, k)
        h = Opaque()
        e, exits = run(p, k, h)
        nt = 0
        for v, s in exits:
            s = s.copy()
            if not e.assume1(s, v, not isne):
                continue
            nt += 1
            a, c = e.load(s, ps[0]), e.load(s, ps[1])
            if len(ad["variants"]) == 1:
                for i, f in enumerate(ad["variants"][0]["f"]):
                    r.ob(equal(e, s, e.proj(a, ("f", 0, i)), e.proj(c, ("f", 0, i)), p, ad["T"], f["ty"]),
                         "%s:%s" % (name, f["n"]), "two values of %s can compare equal although their %s differ" % (name, f["n"]), where)
            else:
                da, dc = e.discr(s, a), e.discr(s, c)
                if not r.ob(da is not None and da == dc or e.evalb(s, eqv(a, c)) is True, "%s:variant" % name, "two values of %s of different kinds can compare equal" % name, where):
                    continue
                vi = e.variant_of_discr(key, da)
                for i, f in enumerate(ad["variants"][vi]["f"]):
                    r.ob(equal(e, s, e.proj(a, ("f", vi, i)), e.proj(c, ("f", vi, i)), p, ad["T"], f["ty"]),
                         "%s:%s:%d" % (name, ad["variants"][vi]["n"], i), "two values of %s::%s can compare equal although their contents differ" % (name, ad["variants"][vi]["n"]), where)
        r.ob(nt > 0, "%s:never" % name, "no two values of %s ever compare equal" % name, where)
        # equal values compare equal, absent features equal empty ones
        fi = [i for i, f in enumerate(ad["variants"][0]["f"]) if optional_features(p, ad["T"], f["ty"])] if len(ad["variants"]) == 1 else []
        scen = [("identical", None)]
        for i in fi:
            scen += [("absent-vs-empty", (i, 0, 1)), ("empty-vs-absent", (i, 1, 0))]
        for label, sc in scen:
            def setup(e, st, vals, sc=sc):
                x = T("sym", "x")
                n = len(ad["variants"][0]["f"])
                if sc is None:
                    st.mem[ps[0]] = x
                    st.mem[ps[1]] = x
                    return
                i, l, rr = sc
                def build(present, tag):
                    m = T("sym", "fmap" + tag)
                    fs = [T("fld", x, 0, j) for j in range(n)]
                    fs[i] = some(T("agg", p.R.feat_key, 0, (m,))) if present else NONE
                    if present:
                        e.assume1(st, ieq(T("len", m), ZERO), True)
                    return T("agg", key, 0, tuple(fs))
                st.mem[ps[0]] = build(l, "1")
                st.mem[ps[1]] = build(rr, "2")
            e, exits = run(p, k, Opaque(), setup)
            for v, s in exits:
                r.ob(e.evalb(s, v) is (not isne), "%s:%s" % (name, label), "%s: %s values do not compare equal" % (name, label), where)
        r.sample("%s: %d exits assume-true, %d fields" % (b["path"], nt, sum(len(v["f"]) for v in ad["variants"])))


# ------------------------------------------------------------------ span order
def nf(t, out=None, m=1):
    """linear normal form: dict atom -> coefficient, constant under None"""
    if out is None:
        out = {}
    o = t.op
    if o == "int":
        out[None] = out.get(None, 0) + m * t.a[0]
    elif o == "lin":
        nf(t.a[0], out, m)
        out[None] = out.get(None, 0) + m * t.a[1]
    elif o == "add":
        nf(t.a[0], out, m)
        nf(t.a[1], out, m)
    elif o == "sub":
        nf(t.a[0], out, m)
        nf(t.a[1], out, -m)
    elif o == "neg":
        nf(t.a[0], out, -m)
    else:
        out[t] = out.get(t, 0) + m
    return out


class SpanScenario(object):
    """values of start, end and number of skipped positions on both sides, as an ordering of symbols"""
    def __init__(self, name, s, e_, k1, k2, n, want):
        self.name, self.s, self.e, self.k1, self.k2, self.n, self.want = name, s, e_, k1, k2, n, want

    def spans(self, p):
        def mk(i, k):
            fs = [None, None, None]
            fs[p.R.s_start] = T("sym", "S" if self.s == 0 else "S%d" % i)
            fs[p.R.s_end] = T("sym", "E" if self.e == 0 else "E%d" % i)
            fs[p.R.s_skips] = some(T("sym", "skips%d" % i)) if k else NONE
            return T("agg", p.R.span_key, 0, tuple(fs))
        return mk(1, self.k1), mk(2, self.k2)

    def sign(self, d):
        """sign of a linear form over the scenario's symbols, or None"""
        d = {k: v for k, v in d.items() if v}
        c = d.pop(None, 0)
        vals = {}
        # s1 - s2, e1 - e2 and len1 - len2 only through their known signs
        def coef(n):
            for k in d:
                if k.op == "sym" and k.a[0] == n:
                    return d[k]
            return 0
        def lenc(n):
            for k in d:
                if k.op == "len" and k.a[0].op == "sym" and k.a[0].a[0] == n:
                    return d[k]
            return 0
        rest = [k for k in d if not (k.op == "sym" and k.a[0] in ("S1", "S2", "E1", "E2")) and not (k.op == "len" and k.a[0].op == "sym" and k.a[0].a[0] in ("skips1", "skips2"))]
        if rest:
            return None
        s1, s2, e1, e2, l1, l2 = coef("S1"), coef("S2"), coef("E1"), coef("E2"), lenc("skips1"), lenc("skips2")
        terms = []
        for x, y, sg in ((s1, s2, self.s), (e1, e2, self.e)):
            if x == 0 and y == 0:
                continue
            if x != -y:
                return None
            terms.append((1 if x > 0 else -1) * sg)
        if l1 or l2:
            if l1 == -l2:
                # n = sign(len1 - len2)
                if self.n is None:
                    return None
                terms.append((1 if l1 > 0 else -1) * self.n)
            elif l2 == 0:
                terms.append(1 if l1 > 0 else -1)
            elif l1 == 0:
                terms.append(1 if l2 > 0 else -1)
            else:
                return None
        if c:
            terms.append(1 if c > 0 else -1)
        if not terms:
            return 0
        if all(t == terms[0] for t in terms):
            return terms[0]
        z = [t for t in terms if t]
        if z and all(t == z[0] for t in z):
            return z[0]
        return None

    def facts(self, e, st):
        ok_ = True
        if self.s:
            a, b = T("sym", "S1"), T("sym", "S2")
            ok_ &= e.assume1(st, lt(a, b) if self.s < 0 else lt(b, a), True)
        if self.e:
            a, b = T("sym", "E1"), T("sym", "E2")
            ok_ &= e.assume1(st, lt(a, b) if self.e < 0 else lt(b, a), True)
        for i, k in ((1, self.k1), (2, self.k2)):
            if k:
                e.assume1(st, lt(ZERO, T("len", T("sym", "skips%d" % i))), True)
        if self.k1 and self.k2 and self.n is not None:
            a, b = T("len", T("sym", "skips1")), T("len", T("sym", "skips2"))
            e.assume1(st, ieq(a, b) if self.n == 0 else (lt(a, b) if self.n < 0 else lt(b, a)), True)
        return ok_


def scenarios():
    out = []
    ks = [(0, 0, None), (0, 1, None), (1, 0, None), (1, 1, -1), (1, 1, 1), (1, 1, 0)]
    for k1, k2, n in ks:
        for s in (-1, 1):
            for e_ in (-1, 0, 1):
                out.append(SpanScenario("start%+d end%+d skips%d%d%s" % (s, e_, k1, k2, n), s, e_, k1, k2, n, s))
        for e_ in (-1, 1):
            out.append(SpanScenario("end%+d skips%d%d%s" % (e_, k1, k2, n), 0, e_, k1, k2, n, e_))
        w = {(0, 0): 0, (0, 1): 1, (1, 0): -1}.get((k1, k2), None)
        if w is None:
            w = -n   # more skips, fewer positions
        out.append(SpanScenario("equal bounds skips%d%d%s" % (k1, k2, n), 0, 0, k1, k2, n, w))
    return out


NOFACTS = St()


class SpanHooks(Hooks):
    keep_facts = True

    def __init__(self, sc):
        self.sc = sc

    def on_assume(self, e, st, c, truth, fr, line):
        # prune branches the scenario decides
        x, t = c, truth
        if not isinstance(t, bool):
            if x.op == "discr" and x.a[0].op == "cmp" and isinstance(t, int):
                o = ordering(self.sc, e, NOFACTS, x.a[0])
                if o is not None and o != (-1 if t in (255, -1) else t):
                    return False
            return None
        while x.op == "not":
            x, t = x.a[0], not t
        if x.op in ("lt", "ieq"):
            d = nf(sub(x.a[0], x.a[1]))
            d[None] = d.get(None, 0) - x.a[2]
            sg = self.sc.sign(d)
            if sg is not None:
                holds = sg < 0 if x.op == "lt" else sg == 0
                if holds != t:
                    return False
            elif x.op == "lt":
                # x - y < c with c = 1 means x <= y
                d2 = dict(d)
                d2[None] = d2.get(None, 0) + 1
                sg2 = self.sc.sign(nf(sub(x.a[0], x.a[1]))) if x.a[2] == 1 else None
                if sg2 is not None and (sg2 <= 0) != t:
                    return False
        return None


def ordering(sc, e, st, v):
    """-1/0/1 or None for an Ordering value under the scenario"""
    if v.op == "agg":
        d = e.discr_of_variant(v.a[0], v.a[1])
        return -1 if d in (255, -1) else d
    d = e.discr(st, v)
    if d is not None:
        return -1 if d in (255, -1) else d
    if v.op == "cmp":
        a, b = v.a
        if a.op == "tup" and b.op == "tup":
            for x, y in zip(a.a[0], b.a[0]):
                o = ordering(sc, e, st, T("cmp", x, y))
                if o is None or o != 0:
                    return o
            return 0
        if a.op == "agg" and a.a[0].endswith("Reverse") and b.op == "agg":
            o = ordering(sc, e, st, T("cmp", a.a[2][0], b.a[2][0]))
            return None if o is None else -o
        return sc.sign(nf(sub(a, b)))
    return None


def span_order(r, p):
    ks = [(k, b) for k, b in p.bodies.items() if re.match(r"^<(\w+::)*Span as core::cmp::(Ord|PartialOrd(<.*>)?)>::(cmp|partial_cmp|lt|le|gt|ge)$", b["path"])]
    names = {b["path"].split("::")[-1] for k, b in ks}
    for n in ("cmp", "partial_cmp"):
        if n not in names:
            raise Anchor("<Span as Ord>::" + n)
    for k, b in sorted(ks):
        nm = b["path"].split("::")[-1]
        where = "%s:%s" % (b["file"], b["line"])
        ps = params(p, k)
        for sc in scenarios():
            def setup(e, st, vals):
                a, c = sc.spans(p)
                st.mem[ps[0]], st.mem[ps[1]] = a, c
                sc.facts(e, st)
            e, exits = run(p, k, SpanHooks(sc), setup)
            r.count("span_order_scenarios")
            good = len(exits) > 0
            got = []
            for v, s in exits:
                if nm in ("lt", "le", "gt", "ge"):
                    want = {"lt": sc.want < 0, "le": sc.want <= 0, "gt": sc.want > 0, "ge": sc.want >= 0}[nm]
                    t = e.evalb(s, v)
                    if t is None and v.op in ("lt", "ieq", "not"):
                        h = SpanHooks(sc)
                        t = not (h.on_assume(e, s, v, True, None, 0) is False)
                    good &= t is want
                    continue
                if nm == "partial_cmp":
                    d = e.discr(s, v)
                    if d != 1:
                        good = False
                        got.append("None")
                        continue
                    v = e.proj(v, ("f", 1, 0))
                o = ordering(sc, e, s, v)
                if o is None and any(x.op in ("phi", "fresh", "lost", "count", "sum") for x in subterms(v)):
                    got = None   # positions counted in a loop
                    break
                got.append(o)
                good &= o == sc.want
            if got is None:
                r.count("span_order_undecided")
                continue
            r.ob(good, "Span::%s:%s" % (nm, re.sub(r" skips.*", "", sc.name) if sc.want == sc.s or sc.want == sc.e else "positions"),
                 "Span::%s is not by start, then end, then number of covered positions: case (%s) gives %s instead of %s" % (nm, sc.name, sorted(set(map(str, got))), sc.want), where)
        r.sample("%s: %d order scenarios" % (b["path"], len(scenarios())))
    r.floor("span_order_scenarios", r.counts.get("span_order_scenarios", 0), 80)


# ------------------------------------------------------------------ trees
def conj(t, truth, out):
    """atoms that a condition with this truth implies, equalities of aggregates taken apart"""
    if t.op == "not":
        return conj(t.a[0], not truth, out)
    if t.op == "and" and truth:
        conj(t.a[0], True, out)
        conj(t.a[1], True, out)
        return out
    if t.op == "or" and not truth:
        conj(t.a[0], False, out)
        conj(t.a[1], False, out)
        return out
    if truth is True and t.op == "eqv":
        a, b = t.a
        if a.op == b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
            for x, y in zip(a.a[2], b.a[2]):
                conj(eqv(x, y), True, out)
            return out
        if a.op == b.op == "tup":
            for x, y in zip(a.a[0], b.a[0]):
                conj(eqv(x, y), True, out)
            return out
    if truth is True:
        out.append(t)
    return out


def has(t, pred):
    return any(pred(x) for x in subterms(t))


class TreeEq(Hooks):
    opaque_eq = True

    def __init__(self, p, g1, g2, k):
        self.p, self.g1, self.g2, self.k = p, g1, g2, k
        self.early = []
        self.pairs = 0
        self.lens = False
        self.reck = set()

    # ps: (missing frozenset or None, seen-complete bool, lens bool)
    def kids(self, t):
        """which graphs the term is a child drawn from"""
        gs = set()
        for x in subterms(t):
            if x.op == "tgt" and x.a[0] in (self.g1, self.g2):
                gs.add(x.a[0])
            if x.op == "it" and x.a[0] == "edges" and x.a[3] == 0 and x.a[1] in (self.g1, self.g2):
                gs.add(x.a[1])
        return gs

    def both(self, t):
        return len(self.kids(t)) == 2

    def on_call(self, e, st, key, info, args, fr, line):
        if key and key in self.p.bodies and (e.in_stack(fr, key) or key in self.force) and "{closure" not in key:
            self.reck.add(key)
            b = self.p.bodies[key]
            for i, a in enumerate(args):
                ty = b["T"][b["locals"][i + 1]]
                if ty["k"] == "ref" and ty.get("mut") and a.op == "ref":
                    e.havoc(st, a, fr, getattr(e, "cur_block", 0), line, "rec%d" % i)
            return [(T("app", "rec:" + key, tuple(e.deep(st, a) for a in args)), st)]

    def on_event(self, e, st, name, args, fr, line):
        if name in ("draw", "exhausted"):
            it = args["it"]
            if it.a[0] == "edges":
                if name == "exhausted" and it.a[3] == 1 and st.ps and st.ps[0] is not None:
                    m = st.ps[0] | {"x1" if it.a[1] is self.g1 else "x2"}
                    if {"x1", "x2"} <= m:
                        m = m - {"E", "x1", "x2"}
                    st.ps = (m,) + st.ps[1:]
                return
            pairing = (it.a[0] == "zip" and self.both(it)) or (it.a[0] == "range" and self.kids(it))
            if not pairing:
                return
            miss, done, lens, sf = st.ps or (None, False, False, False)
            real = (miss or frozenset()) & {"N", "E", "R"}
            if real:
                self.early.append((real, loc(fr, line)))
            if name == "draw":
                self.pairs += 1
                st.ps = (frozenset("NER"), done, lens, sf)
            else:
                st.ps = (None, True, lens, sf)

    def on_assume(self, e, st, c, truth, fr, line):
        if not isinstance(truth, bool) or c.op == "bool":
            return
        for a in conj(c, truth, []):
            self.atom(st, a)
        x, t = c, truth
        while x.op == "not":
            x, t = x.a[0], not t
        if x.op == "eqv" and fr is not None and self.is_sec(e, st, x):
            if t:
                self.sec_seen = True
            else:
                m, d, l, _ = st.ps or (None, False, False, False)
                st.ps = (m, d, l, True)

    sec_seen = False
    force = frozenset()

    def is_sec(self, e, st, a):
        sides = a.a[:2]
        gs = [{x.a[1] for x in subterms(sd) if x.op == "it" and x.a[0] in ("edges", "edgeidx") and x.a[1] in (self.g1, self.g2)} for sd in sides]
        if not (gs[0] and gs[1] and gs[0] | gs[1] == {self.g1, self.g2}):
            return False
        return all(any(y.op == "coll" for y in subterms(sd)) and secondary_side(e, self, st, sd, self.g1, self.g2, self.k) for sd in sides)

    def atom(self, st, a):
        miss, done, lens, sf = st.ps or (None, False, False, False)
        x, y = (a.a[0], a.a[1]) if a.op in ("eqv", "ieq") else (None, None)
        m = miss or frozenset()
        if a.op == "ieq" and a.a[2] == 0 and {x.op, y.op} <= {"len", "count"} and self.kids(x) and self.kids(y) and len(self.kids(x) | self.kids(y)) == 2:
            lens = True
        if a.op == "eqv":
            if {x.op, y.op} == {"nd"} and {x.a[0], y.a[0]} == {self.g1, self.g2} and x.a[1].op == "tgt" and y.a[1].op == "tgt":
                m = m - {"N"}
            if {x.op, y.op} == {"ed"} and {x.a[0], y.a[0]} == {self.g1, self.g2}:
                m = m - {"E"}
        if a.op == "app" and str(a.a[0]).startswith("rec:") and self.both(a):
            m = m - {"R"}
        st.ps = (m if miss is not None else None, done, lens, sf)

    def join_ps(self, a, b):
        if a is None or b is None:
            return a or b
        if a == b:
            return a
        if a[0] is None and b[0] is None:
            mm = None
        else:
            mm = (a[0] or frozenset()) | (b[0] or frozenset())
        return (mm, a[1] and b[1], a[2] and b[2], a[3] or b[3])

    def ps_key(self, ps):
        return (ps[2], ps[3]) if ps else (False, False)


def probe_pairs(e, h, st, q):
    """a quantifier all(it, closure) that is true: check its closure on a generic pair"""
    return None


def tree_eq(r, p):
    R = p.R
    k = body(p, r"^<tree::Tree as core::cmp::PartialEq(<.*>)?>::eq$")
    b = p.bodies[k]
    where = "%s:%s" % (b["file"], b["line"])
    if b.get("derived"):
        r.ob(False, "Tree:derived", "tree equality compares the graph by identity of its internal indices", where)
        return
    ps = params(p, k)
    g1, g2 = (T("fld", T("sym", x.a[0]), 0, R.t_graph) for x in ps[:2])
    r1, r2 = (T("fld", T("sym", x.a[0]), 0, R.t_root) for x in ps[:2])
    h = TreeEq(p, g1, g2, k)
    e, exits = run(p, k, h)
    nt = 0
    for v, s in exits:
        s = s.copy()
        if not e.assume1(s, v, True):
            continue
        h.on_assume(e, s, v, True, None, 0)
        nt += 1
        quants = [f for f, t in s.facts.items() if f.op == "quant" and f.a[0] == "all" and t is True]
        if v.op == "quant" and v.a[0] == "all":
            quants.append(v)
        # what generic elements of universally quantified pairs satisfy
        extra = [quant_atoms(e, h, s, q, k) for q in set(quants)]
        miss, done, lens, sf = s.ps or (None, False, False, False)
        for (x, at, m0) in extra:
            if x is None:
                continue
            if h.both(x) and x.op == "tup":
                if "N" not in m0 or "R" not in m0 or "E" not in m0:
                    h.pairs += 1
                    for z in sorted(m0):
                        h.early.append((frozenset(z), where))
                    done = True
            for a in at:
                if a.op == "ieq" and {a.a[0].op, a.a[1].op} <= {"len", "count"} and h.both(a):
                    lens = True
        r.ob(e.evalb(s, eqv(T("nd", g1, r1), T("nd", g2, r2))) is True, "Tree:root", "two trees can compare equal although their roots differ", where)
        r.ob(done, "Tree:children-loop", "two trees can compare equal without their children having been compared", where)
        r.ob(lens, "Tree:child-count", "two trees can compare equal although a node has more children in one of them", where)
        sec = False
        allatoms = [f for f, t in s.facts.items() if t is True] + [v] + [a for _, at, _m in extra for a in at]
        for a in allatoms:
            if a.op not in ("eqv", "ieq"):
                continue
            if a.op == "eqv" and h.is_sec(e, s, a):
                sec = True
        sec = sec or (h.sec_seen and not sf)
        r.ob(sec, "Tree:secondary", "two trees can compare equal although their secondary edges (ends or labels) differ", where)
    names = {"N": "nodes", "E": "edges", "R": "subtrees below the children"}
    for miss, w in h.early:
        for z in miss:
            r.bad("Tree:pair:" + z, "two trees can compare equal although corresponding children's %s differ" % names[z], w)
    r.obs += 3 * max(1, h.pairs)
    r.ok += 3 * max(1, h.pairs) - len(set(z for m, _ in h.early for z in m))
    r.ob(nt > 0, "Tree:never", "no two trees ever compare equal", where)
    r.floor("tree_child_pairs", h.pairs, 1)
    r.sample("Tree::eq: %d exits, %d pair iterations, recursive functions %s" % (nt, h.pairs, sorted(h.reck)))


def quant_atoms(e, h, st, q, k):
    """(generic element, atoms implied when the closure of an all() holds of it on every path)"""
    it, clo = q.a[1].a[0] if isinstance(q.a[1], Term) else q.a[1]
    fr = e.new_frame(k, None, 0, "quant")

    class C(object):
        pass
    import models, engine
    c = engine.Ctx(e, fr, 0, {"path": "", "args": []}, [], [], 0)
    s0 = st.copy()
    s0.ps = (None, False, False, False)
    res = None
    elem = None
    miss = frozenset()
    cl = e.val(s0, clo)
    if cl.op == "closure":
        h.force = frozenset(h.reck | {cl.a[0].rsplit("::{closure", 1)[0]})
    try:
        for x, s, _ in models.draw(c, s0, it, "qprobe"):
            if x is None:
                continue
            elem = x
            if h.both(x):
                s.ps = (frozenset("NER"), False, False, False)
            base = set(f for f, t in s.facts.items() if t is True)
            for v, s2 in e.call_value(fr, 0, s, clo, [x], 0, "qprobe"):
                s2 = s2.copy()
                if not e.assume1(s2, v, True):
                    continue
                at = set()
                for f, t in s2.facts.items():
                    if t is True and f not in base:
                        at.update(conj(f, True, []))
                at.update(conj(v, True, []))
                h.on_assume(e, s2, v, True, None, 0)
                miss |= (s2.ps[0] if s2.ps and s2.ps[0] is not None else frozenset("NER")) & frozenset("NER")
                if s2.ps and s2.ps[2]:
                    at.add(T("ieq", T("len", T("tgt", h.g1, ANYT)), T("len", T("tgt", h.g2, ANYT)), 0))
                res = at if res is None else (res & at)
    finally:
        h.force = frozenset()
    return elem, (res or set()), miss


ANYT = T("any")


def secondary_side(e, h, st, t, g1, g2, k):
    """the compared value depends on source and label of edges that are not primary"""
    # the elements collected
    fr = e.new_frame(k, None, 0, "sec")
    import models, engine
    c = engine.Ctx(e, fr, 0, {"path": "", "args": []}, [], [], 0)
    its = [x for x in subterms(t) if x.op in ("coll",)]
    if not its:
        its = []
    ok_ = False
    for co in its:
        s = st.copy()
        s.ps = (None, False, False, False)
        srcs = lab = False
        good = False
        for x, s2, _ in models.draw(c, s, co.a[0], "sprobe"):
            if x is None:
                continue
            x = e.deep(s2, x)
            sub_ = subterms(x)
            eds = [y for f in s2.facts for y in subterms(f) if y.op == "ed" and y.a[0] in (g1, g2)]
            secs = [y for y in set(eds) if e.discr(s2, y) == e.discr_of_variant(h.p.R.edge_key, h.p.R.v_sec)]
            if not secs:
                continue
            def dep(y):
                return y.op == "fld" and y.a[0].op == "fld" and y.a[0].a[0] in secs or y in secs
            has_lab = any(dep(y) for y in sub_) or any(any(dep(z) for z in subterms(f)) for f, tv in s2.facts.items() if f.op in ("discr",) and f.a[0] in sub_)
            has_src = any(y.op == "src" for y in sub_) or any(y.op in ("find", "app", "fresh") for y in sub_)
            srcs |= has_src
            lab |= has_lab
            good = True
        if good and lab and srcs:
            ok_ = True
    return ok_


@check("C11", "branch-fact dataflow over the equality and ordering operators (typed MIR): per-exit field obligations, order decision table, pairwise-comparison automaton", "other",
       "Equality: decided for every exit of every hand-written PartialEq, in both directions; derived ones are trusted to rustc. Tree equality: the recursion is cut at recursive calls (induction on the subtree).")
def c11(r):
    p = r.p
    r.rule("Every path on which a hand-written == can answer true carries facts that make every field equal (absent and empty features count as equal), and on equal operands every path answers true")
    r.rule("Span::cmp/partial_cmp answer by start, then end, then number of covered positions in every case of the decision table over the signs of the differences")
    r.rule("Tree::eq answers true only after the roots, and for every pair of corresponding children the nodes, the edges, the child counts and (recursively) the subtrees, and the secondary edges with ends and labels, compared equal")
    for n in ("Terminal", "NonTerminal", "Node", "Edge", "Features", "Span"):
        struct_eq(r, p, n)
    span_order(r, p)
    tree_eq(r, p)
    r.floor("comparison_operators", r.counts.get("comparison_operators", 0), 6)
