"""Path-sensitive abstract interpretation (property-state dataflow) over MIR facts.

The engine computes, for one entry function with all local callees expanded in context, a
fixpoint of abstract states per basic block.  States are joined at loop heads (and, past a small
cap, at every block) when they agree on the checker's automaton state and on the variant/boolean
shape of the live values.  Branch conditions refine a fact store (enum variants, booleans, and a
difference-bound domain for integers).  Nothing of the analysed program is executed.
"""
import re, sys, time
from collections import defaultdict
from terms import *
from terms import _EMPTY

sys.setrecursionlimit(20000)


class Dead(Exception):
    pass


class Budget(Exception):
    pass


class Program(object):
    def __init__(self, facts):
        self.crates = facts
        self.bodies = {}
        self.adts = {}
        self.types = {}
        self.statics = {}
        self.impls = []
        self.froms = {}
        for c, j in facts.items():
            for k, b in j["bodies"].items():
                if "::rules::" in k:
                    continue
                b["crate"] = c
                b["T"] = j["types"]
                self.bodies[k] = b
            for k, v in j["adts"].items():
                if k not in self.adts or v.get("local"):
                    self.adts[k] = v
                    v["T"] = j["types"]
            self.statics.update(j["statics"])
            for im in j["impls"]:
                im["crate"] = c
                self.impls.append(im)
        self._cfg = {}
        for k, b in self.bodies.items():
            m = re.match(r"^<(.*) as core::convert::From<(.*)>>::from$", b["path"])
            if m:
                self.froms[(norm_ty(m.group(1)), norm_ty(m.group(2)))] = k

    def tys(self, b, i):
        return b["T"][i]["s"] if isinstance(i, int) else str(i)

    def cfg(self, key):
        c = self._cfg.get(key)
        if c is None:
            c = self._cfg[key] = Cfg(self.bodies[key])
        return c

    def named(self, path_re):
        r = re.compile(path_re)
        return sorted(k for k, b in self.bodies.items() if r.search(b["path"]))


def norm_ty(s):
    s = re.sub(r"'[a-z_]\w*\s?", "", s)
    s = s.replace("lumberjack::", "")
    s = s.replace("<>", "")
    return s.strip()


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


class Cfg(object):
    def __init__(self, b):
        n = len(b["blocks"])
        self.succ = [[x for x in succs(bl["t"]) if not b["blocks"][x]["c"]] for bl in b["blocks"]]
        # DFS postorder + back edges
        color = [0] * n
        post = []
        self.back = set()
        stack = [(0, iter(self.succ[0]))]
        color[0] = 1
        while stack:
            v, it = stack[-1]
            for w in it:
                if color[w] == 0:
                    color[w] = 1
                    stack.append((w, iter(self.succ[w])))
                    break
                elif color[w] == 1:
                    self.back.add((v, w))
            else:
                color[v] = 2
                post.append(v)
                stack.pop()
        self.rpo = {v: i for i, v in enumerate(reversed(post))}
        self.heads = {}
        pred = defaultdict(list)
        for v in range(n):
            if v in self.rpo:
                for w in self.succ[v]:
                    pred[w].append(v)
        self.pred = pred
        for (v, h) in self.back:
            body = self.heads.setdefault(h, {h})
            st = [v]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(pred[x])
        self.live = self._liveness(b)

    def _liveness(self, b):
        def places_use(pl, use, dfn=None):
            use.add(pl[0])
            for e in pl[1]:
                if e != "*" and e[0] == "i":
                    use.add(e[1])

        def opuse(o, use):
            if o[0] in ("cp", "mv"):
                places_use(o[1], use)

        def rvuse(r, use):
            for x in r[1:]:
                if isinstance(x, list):
                    if x and x[0] in ("cp", "mv") and len(x) == 2:
                        opuse(x, use)
                    elif r[0] in ("ref", "discr", "addr", "len") and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                        places_use(x, use)
                    elif r[0] == "agg":
                        for y in x:
                            if isinstance(y, list) and y and y[0] in ("cp", "mv"):
                                opuse(y, use)
        n = len(b["blocks"])
        gen, kill = [set() for _ in range(n)], [set() for _ in range(n)]
        for i, bl in enumerate(b["blocks"]):
            g, k = set(), set()
            items = []
            for s in bl["s"]:
                if s[0] == "=":
                    u = set()
                    rvuse(s[2], u)
                    d = None
                    if s[1][1]:
                        places_use(s[1], u)
                    else:
                        d = s[1][0]
                    items.append((u, d))
                elif s[0] == "setdiscr":
                    u = set()
                    places_use(s[1], u)
                    items.append((u, None))
            t = bl["t"]
            u = set()
            d = None
            if t[0] == "switch":
                opuse(t[1], u)
            elif t[0] == "assert":
                opuse(t[1], u)
            elif t[0] == "call":
                opuse(t[1], u)
                for x in t[2]:
                    opuse(x, u)
                if t[3][1]:
                    places_use(t[3], u)
                else:
                    d = t[3][0]
            elif t[0] == "return":
                u.add(0)
            items.append((u, d))
            for u, d in items:
                g |= (u - k)
                if d is not None:
                    k.add(d)
            gen[i], kill[i] = g, k
        live = [set() for _ in range(n)]
        changed = True
        order = sorted(self.rpo, key=lambda v: -self.rpo[v])
        while changed:
            changed = False
            for v in order:
                out = set()
                for w in self.succ[v]:
                    out |= live[w]
                new = gen[v] | (out - kill[v])
                if new != live[v]:
                    live[v] = new
                    changed = True
        return live


CTOR = re.compile(r"(?:.*::)?(Result|Option)::(Ok|Err|Some)$")


class Frame(object):
    __slots__ = ("fid", "key", "body", "gsub", "parent", "block", "depth", "chain")


class Site(object):
    """Where an event happens: body key, line, and the chain of callers."""
    __slots__ = ("key", "path", "file", "line", "chain")

    def __init__(self, fr, line):
        self.key = fr.key
        self.path = fr.body["path"]
        self.file = fr.body["file"]
        self.line = line
        self.chain = fr.chain

    def __str__(self):
        return "%s:%s in %s" % (self.file, self.line, self.path)

    def trace(self):
        return " <- ".join(["%s" % self] + ["%s:%s %s" % (f, l, p) for (f, l, p) in reversed(self.chain)])


class Hooks(object):
    """Checker interface; all no-ops."""
    keep_facts = False   # path-complete: never merge states with different facts
    cap = 24
    exitcap = 12
    local_writes = False  # report stores into parts of locals too
    def on_write(self, e, st, root, path, val, fr, line): pass
    def on_event(self, e, st, name, args, fr, line): pass
    def on_call(self, e, st, key, info, args, fr, line): return None
    def on_panic(self, e, st, kind, fr, line): pass
    def on_assume(self, e, st, cond, truth, fr, line): pass
    def on_loop(self, e, st, fr, block, backedge): pass
    def opaque(self, e, key): return False
    def abstract(self, e, st, t): return None
    def on_fail(self, e, st, v, fr, line): pass
    def on_skip(self, e, before, st, fr, line): pass
    def ps_atoms(self, ps): return ()
    def ps_subst(self, ps, m): return ps
    def join_ps(self, a, b): return a
    def ps_key(self, ps): return ps
    def ps_effect(self, ps): return self.ps_key(ps)      # what calling a closure must not change if its calls are to be left out


INTS = {"usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128"}
SIGNED = {"isize", "i8", "i16", "i32", "i64", "i128"}
CAP = 24
EXITCAP = 12


class Engine(object):
    def __init__(self, prog, hooks=None, budget=600.0):
        self.p = prog
        self.h = hooks or Hooks()
        self.frames = {}
        self.pins = []
        self.frids = {}
        self.signed = set()
        self.deadline = time.time() + budget
        self.visited_bodies = set()
        self.n_states = 0
        self.unknown = {}
        self.dsckey = {}
        import models
        self.models = models.MODELS
        self.m = models

    # ---------------------------------------------------------------- values
    def is_signed(self, t):
        return t in self.signed

    def discr_of_variant(self, key, v):
        a = self.p.adts.get(key)
        if a is None:
            return v
        return int(a["variants"][v]["d"])

    def variant_of_discr(self, key, d):
        a = self.p.adts.get(key)
        if a is None:
            return d
        for i, v in enumerate(a["variants"]):
            if int(v["d"]) == d:
                return i
        return None

    def lazy(self, root):
        o = root.op
        if o == "V":
            return root.a[0]
        if o == "N":
            return T("nd", root.a[0], root.a[1])
        if o == "E":
            return T("ed", root.a[0], root.a[1])
        if o == "P":
            return T("sym", root.a[0])
        if o == "L":
            return T("uninit")
        return T("ldroot", root)

    def proj(self, t, pe):
        k = pe[0]
        if k == "f":
            v, i = pe[1], pe[2]
            if t.op == "agg":
                if t.a[1] == v and i < len(t.a[2]):
                    return t.a[2][i]
                if t.a[1] != v:
                    raise Dead()
                return T("fld", t, v, i)
            if t.op == "tup":
                return t.a[0][i] if i < len(t.a[0]) else T("fld", t, v, i)
            if t.op == "closure":
                return t.a[1][i]
            return T("fld", t, v, i)
        if k == "ix":
            return self.m.elem_at(self, t, pe[1])
        return T("pj", t, pe)

    def cls(self, path):
        return tuple((pe[1], pe[2]) if pe[0] == "f" else ("ix",) for pe in path)

    def dirt(self, st, root, path):
        """stamps of possibly aliasing writes that overlap this path of a lazy node"""
        if not st.dirty:
            return ()
        g = root.a[0]
        kind = root.op
        cp = self.cls(path)
        out = []
        for (gg, kk, wp), s in st.dirty.items():
            if gg is g and kk == kind:
                n = min(len(wp), len(cp))
                if wp[:n] == cp[:n]:
                    out.append(s)
        out.sort(key=lambda s: s.id)
        return tuple(out)

    def load(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            v = self.lazy(root)
            if root.op in ("N", "E"):
                for pe in path:
                    v = self.proj(v, pe)
                d = self.dirt(st, root, path)
                if d:
                    v = T("ver", d, v)
                return v
        for pe in path:
            v = self.proj(v, pe)
        return v

    def update(self, st, v, path, new, tyhint=None):
        if not path:
            return new
        pe = path[0]
        if pe[0] == "f":
            var, i = pe[1], pe[2]
            if v.op == "agg":
                if v.a[1] != var:
                    raise Dead()
                fs = list(v.a[2])
                while len(fs) <= i:
                    fs.append(T("uninit"))
                fs[i] = self.update(st, fs[i], path[1:], new)
                return T("agg", v.a[0], v.a[1], tuple(fs))
            if v.op == "tup":
                fs = list(v.a[0])
                while len(fs) <= i:
                    fs.append(T("uninit"))
                fs[i] = self.update(st, fs[i], path[1:], new)
                return T("tup", tuple(fs))
            if v.op == "closure":
                fs = list(v.a[1])
                fs[i] = self.update(st, fs[i], path[1:], new)
                return T("closure", v.a[0], tuple(fs))
            owner = pe[3] if len(pe) > 3 else None
            ex = self.expand(v, owner, var)
            if ex is None:
                if owner == "tuple" or v.op == "uninit":
                    fs = [T("fld", v, var, k) for k in range(i)] + [self.update(st, T("fld", v, var, i), path[1:], new)]
                    return T("tup", tuple(fs))
                return T("upd", v, (var, i), self.update(st, T("fld", v, var, i), path[1:], new))
            return self.update(st, ex, path, new)
        if pe[0] == "ix":
            return self.m.set_elem(self, st, v, pe[1], new if len(path) == 1 else self.update(st, self.proj(v, pe), path[1:], new))
        return T("upd", v, pe, new)

    def expand(self, v, owner, var):
        """unknown value of a known local ADT -> explicit aggregate of field loads"""
        if owner is None or owner in ("tuple", "closure"):
            return None
        a = self.p.adts.get(owner)
        if a is None:
            return None
        n = len(a["variants"][var]["f"])
        return T("agg", owner, var, tuple(self.proj_lazy(v, var, k) for k in range(n)))

    def proj_lazy(self, v, var, k):
        return T("fld", v, var, k)

    def expand_node(self, st, root, path):
        """materialise lazily loaded node with versions so that later writes can be applied"""
        v = self.lazy(root)
        return v

    def store(self, st, root, path, val, fr=None, line=0, quiet=False):
        if root.op == "V":
            if fr is not None and not quiet:
                self.h.on_write(self, st, root, path, val, fr, line)
            return
        if not quiet and fr is not None and (root.op in ("N", "E", "P") or root.op == "L" and path and self.h.local_writes):
            self.h.on_write(self, st, root, path, val, fr, line)
        if root.op in ("N", "E"):
            self.store_node(st, root, path, val, fr)
            return
        if not path:
            st.mem[root] = val
            return
        v = st.mem.get(root)
        if v is None:
            v = self.lazy(root)
        st.mem[root] = self.update(st, v, path, val)

    def node_explicit(self, st, root, owner_path):
        v = st.mem.get(root)
        if v is not None:
            return v
        v = self.lazy(root)
        # expand along the path, decorating each untouched leaf with its version
        return v

    def store_node(self, st, root, path, val, fr):
        g = root.a[0]
        kind = root.op
        cp = self.cls(path)
        stamp = T("st", fr.fid if fr else 0, getattr(self, "cur_block", 0), len(cp))
        # possibly aliasing explicit nodes
        for r2 in list(st.mem):
            if r2 is root or r2.op != kind or r2.a[0] is not g:
                continue
            if self.distinct(st, root.a[1], r2.a[1]):
                continue
            if self.same(st, root.a[1], r2.a[1]):
                try:
                    st.mem[r2] = self.update(st, st.mem[r2], path, val)
                except Dead:
                    pass
                continue
            try:
                old = self.load(st, r2, path)
                st.mem[r2] = self.update(st, st.mem[r2], path, T("hv", stamp, old))
            except Dead:
                pass
        if path:
            v = st.mem.get(root)
            if v is None:
                v = self.lazy(root)
                v = self.explicit(st, root, (), v, path)
            st.mem[root] = self.update(st, v, path, val)
        else:
            st.mem[root] = val
        st.dirty[(g, kind, cp)] = stamp

    def explicit(self, st, root, pre, v, path):
        """aggregate for lazy `v` at prefix `pre`, expanded along `path` with version-correct leaves"""
        if not path:
            return self.load(st, root, pre)
        pe = path[0]
        owner = pe[3] if len(pe) > 3 else None
        if pe[0] != "f" or owner is None or owner not in self.p.adts:
            return self.load(st, root, pre)
        a = self.p.adts[owner]
        var = pe[1]
        fs = []
        for k in range(len(a["variants"][var]["f"])):
            p2 = pre + (("f", var, k),)
            if k == pe[2]:
                fs.append(self.explicit(st, root, p2, None, path[1:]))
            else:
                fs.append(self.load(st, root, p2))
        return T("agg", owner, var, tuple(fs))

    def same(self, st, a, b):
        if a is b:
            return True
        return self.evalb(st, eqv(a, b)) is True

    def distinct(self, st, a, b):
        if a is b:
            return False
        if self.evalb(st, eqv(a, b)) is False:
            return True
        return False

    def val(self, st, t):
        n = 0
        while t.op == "ref" and n < 12:
            t = self.load(st, t.a[0], t.a[1])
            n += 1
        return t

    def deep(self, st, t, d=0):
        t = self.val(st, t)
        if d > 6:
            return t
        if t.op == "tup":
            return T("tup", tuple(self.deep(st, x, d + 1) for x in t.a[0]))
        if t.op == "agg" and t.a[0] in (OPT, RES):
            return T("agg", t.a[0], t.a[1], tuple(self.deep(st, x, d + 1) for x in t.a[2]))
        return t

    def deref_loc(self, st, t):
        """(root, path) of the storage a reference designates (following reference chains)"""
        while True:
            if t.op == "ref":
                inner = self.load(st, t.a[0], t.a[1])
                if inner.op == "ref":
                    t = inner
                    continue
                return t.a[0], t.a[1]
            return T("V", t), ()

    # ---------------------------------------------------------------- discriminants
    def discr(self, st, v):
        """concrete discriminant int or None"""
        if v.op == "agg":
            return self.discr_of_variant(v.a[0], v.a[1])
        f = st.facts.get(self.dterm(st, v))
        if isinstance(f, int) and not isinstance(f, bool):
            return f
        return None

    def dterm(self, st, v):
        b = v
        while b.op == "ver" and b.a[1].op in ("nd", "ed"):
            # a write to part of a node never changes which kind of node it is; a write of the
            # whole node does
            if any(self._whole(st, b.a[1], s) for s in b.a[0]):
                break
            b = b.a[1]
        return T("discr", b)

    def _whole(self, st, nd, stamp):
        kind = "N" if nd.op == "nd" else "E"
        for (g, k, wp), s in st.dirty.items():
            if s is stamp and g is nd.a[0] and k == kind and len(wp) == 0:
                return True
        return False

    def split_discr(self, st, v, vals, fr=None, line=0):
        """-> list of (discriminant or None(otherwise), state)"""
        d = self.discr(st, v)
        if d is not None:
            return [(d if d in vals else None, st)]
        t = self.dterm(st, v)
        known = st.facts.get(t)
        excl = known if isinstance(known, frozenset) else _EMPTY
        out = []
        for x in vals:
            if x in excl:
                continue
            s = st.copy()
            if self.set_discr(s, v, x, fr, line):
                out.append((x, s))
        # otherwise
        s = st
        s2 = s.copy()
        s2.facts[t] = excl | frozenset(vals)
        out.append((None, s2))
        return out

    def set_discr(self, st, v, d, fr=None, line=0):
        if v.op == "agg":
            return self.discr_of_variant(v.a[0], v.a[1]) == d
        t = self.dterm(st, v)
        known = st.facts.get(t)
        if isinstance(known, frozenset):
            if d in known:
                return False
        elif known is not None and known != d:
            return False
        if v.op == "cmp":
            a, b = v.a
            if d == 0:
                cs = [(ieq(a, b), True)]
            elif d == 1:
                cs = [(lt(b, a), True)]
            else:
                cs = [(lt(a, b), True)]
            for c, tr in cs:
                if not self.assume1(st, c, tr):
                    return False
        st.facts[t] = d
        if fr is not None:
            r = self.h.on_assume(self, st, t, d, fr, line)
            if r is False:
                return False
        self.m.on_discr(self, st, v, d)
        return True

    # ---------------------------------------------------------------- booleans / integers
    def bound(self, st, x, y, inner=False):
        """least known w with x - y <= w, or None"""
        edges = []
        atoms = {x, y, ZERO}
        for f, v in st.facts.items():
            if f.op == "lt" and v is True:
                edges.append((f.a[0], f.a[1], f.a[2] - 1))
                atoms.add(f.a[0]); atoms.add(f.a[1])
            elif f.op == "ieq" and v is True:
                edges.append((f.a[0], f.a[1], f.a[2]))
                edges.append((f.a[1], f.a[0], -f.a[2]))
                atoms.add(f.a[0]); atoms.add(f.a[1])
        for t in atoms:
            if t.op == "sub" and not inner:
                # a difference: what is known about its sides
                w = self.bound(st, t.a[1], t.a[0], True)
                if w is not None:
                    edges.append((ZERO, t, w))
                w = self.bound(st, t.a[0], t.a[1], True)
                if w is not None:
                    edges.append((t, ZERO, w))
            elif t is not ZERO and t.op != "sub" and t not in self.signed:
                edges.append((ZERO, t, 0))
                if t.op == "len1":
                    edges.append((ZERO, t, -1))
        # edges a->b with a - b <= w : shortest path from x to y
        dist = {x: 0}
        for _ in range(8):
            ch = False
            for a, b, w in edges:
                if a in dist:
                    nd = dist[a] + w
                    if b not in dist or nd < dist[b]:
                        dist[b] = nd
                        ch = True
            if not ch:
                break
        return dist.get(y)

    def evalb(self, st, t):
        o = t.op
        if o == "bool":
            return t.a[0]
        if o == "not":
            r = self.evalb(st, t.a[0])
            return None if r is None else (not r)
        f = st.facts.get(t)
        if f is True or f is False:
            return f
        if o == "lt":
            x, y, c = t.a
            b = self.bound(st, x, y)
            if b is not None:
                if b < c:
                    return True
                if b == c and st.facts.get(self._ieq(x, y, c)) is False:
                    return True
            b = self.bound(st, y, x)   # y - x <= b ; not(x-y<c) iff y-x <= -c
            if b is not None and b <= -c:
                return False
            return None
        if o == "ieq":
            x, y, c = t.a
            b1 = self.bound(st, x, y)
            b2 = self.bound(st, y, x)
            if b1 is not None and b1 < c:
                return False
            if b2 is not None and b2 < -c:
                return False
            if b1 is not None and b2 is not None and b1 == c and b2 == -c:
                return True
            return None
        if o == "and":
            a, b = self.evalb(st, t.a[0]), self.evalb(st, t.a[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if o == "or":
            a, b = self.evalb(st, t.a[0]), self.evalb(st, t.a[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if o == "isv":
            d = self.discr(st, t.a[0])
            if d is not None:
                return d == t.a[1]
            k = st.facts.get(self.dterm(st, t.a[0]))
            if isinstance(k, frozenset) and t.a[1] in k:
                return False
            return None
        if o == "eqv":
            return self.m.eval_eq(self, st, t.a[0], t.a[1])
        return None

    def _ieq(self, x, y, c):
        return ieq(x, lin(y, c))

    def assume1(self, st, t, truth):
        """assume in place; False if contradictory"""
        o = t.op
        if o == "bool":
            return t.a[0] == truth
        if o == "not":
            return self.assume1(st, t.a[0], not truth)
        k = self.evalb(st, t)
        if k is not None:
            if k != truth:
                return False
            if t.op not in ("isv",):
                st.facts[t] = truth
            return True
        if o == "lt" and not truth:
            x, y, c = t.a
            # y - x <= -c  ->  y - x < 1 - c
            nt = T("lt", y, x, 1 - c) if y is not x else None
            st.facts[nt] = True
            return True
        if o == "and" and truth:
            return self.assume1(st, t.a[0], True) and self.assume1(st, t.a[1], True)
        if o == "or" and not truth:
            return self.assume1(st, t.a[0], False) and self.assume1(st, t.a[1], False)
        if o == "isv":
            if truth:
                return self.set_discr(st, t.a[0], t.a[1])
            dt = self.dterm(st, t.a[0])
            known = st.facts.get(dt)
            excl = known if isinstance(known, frozenset) else _EMPTY
            st.facts[dt] = excl | frozenset([t.a[1]])
            if t.a[1] in (0, 1) and self.m.two_valued(t.a[0]):
                return self.set_discr(st, t.a[0], 1 - t.a[1])
            return True
        st.facts[t] = truth
        return self.m.on_bool(self, st, t, truth)

    def branch(self, st, t, fr=None, line=0):
        """-> list of (bool, state)"""
        k = self.evalb(st, t)
        if k is not None:
            # a decided condition is still reported to the checker
            self.h.on_assume(self, st, t, k, fr, line)
            return [(k, st)]
        out = []
        for truth in (True, False):
            s = st.copy()
            if self.assume1(s, t, truth):
                r = self.h.on_assume(self, s, t, truth, fr, line)
                if r is not False:
                    out.append((truth, s))
        return out

    # ---------------------------------------------------------------- frames
    def new_frame(self, key, parent, block, extra=""):
        body = self.p.bodies[key]
        ident = (parent.fid if parent else 0, block, key, extra)
        fid = self.frids.get(ident)
        if fid is None:
            fid = self.frids[ident] = len(self.frids) + 1
        fr = Frame()
        fr.fid = fid
        fr.key = key
        fr.body = body
        fr.parent = parent
        fr.block = block
        fr.depth = parent.depth + 1 if parent else 0
        fr.gsub = {}
        fr.chain = parent.chain if parent else ()
        self.frames[fid] = fr
        return fr

    def in_stack(self, fr, key):
        while fr is not None:
            if fr.key == key:
                return True
            fr = fr.parent
        return False

    def L(self, fr, n):
        return T("L", fr.fid, n)

    # ---------------------------------------------------------------- places and operands
    def place(self, st, fr, pl):
        root = self.L(fr, pl[0])
        path = ()
        ty = fr.body["T"][fr.body["locals"][pl[0]]]
        pend = None
        for e in pl[1]:
            if e == "*":
                v = self.load(st, root, path)
                if v.op == "ref":
                    root, path = v.a
                elif ty is not None and ty["k"] == "adt" and ty["key"].startswith("alloc::boxed::Box"):
                    pass
                elif ty is not None and ty["k"] == "ptr":
                    root, path = T("V", v), ()
                else:
                    root, path = T("V", v), ()
                ty = fr.body["T"][ty["to"]] if ty is not None and "to" in ty else None
                pend = None
            elif e[0] == "d":
                pend = e[1]
            elif e[0] == "f":
                owner = e[3]
                if owner and (owner.startswith("core::mem::maybe_uninit") or owner.startswith("core::mem::manually_drop") or owner.startswith("core::mem::maybe_dangling") or owner.startswith("alloc::boxed::Box") or owner.startswith("core::ptr::")):
                    continue
                path = path + (("f", pend or 0, e[1], owner),) if False else path + (("f", pend or 0, e[1], owner),)
                pend = None
                ty = fr.body["T"][e[2]] if isinstance(e[2], int) else None
            elif e[0] == "i":
                idx = self.load(st, self.L(fr, e[1]))
                path = path + (("ix", idx),)
                ty = None
            elif e[0] == "ci":
                path = path + (("ix", const_int(e[1])),)
                ty = None
            else:
                path = path + (("other", str(e)),)
        return root, path

    def const(self, fr, c, ty=None):
        k = c[0]
        if k == "str":
            return T("str", c[1])
        if k == "int":
            return T("int", int(c[1]))
        if k == "bool":
            return TRUE if c[1] else FALSE
        if k == "char":
            return T("char", c[1])
        if k == "bytes":
            return T("bytes", tuple(c[1]))
        if k == "promoted":
            return ("promoted", c[1])
        if k == "static":
            s = self.p.statics.get(c[1])
            if s and s["v"]:
                return self.const(fr, s["v"])
            return T("static", c[1])
        if k == "named":
            if len(c) > 2 and c[2]:
                return self.const(fr, c[2])
            return T("named", c[1])
        if k == "zst":
            return UNIT
        if k == "arr":
            return T("arr", tuple(self.const(fr, x) for x in c[1]))
        return T("const", repr(c))

    def operand(self, st, fr, o):
        if o[0] in ("cp", "mv"):
            root, path = self.place(st, fr, o[1])
            return self.load(st, root, path)
        if o[0] == "c":
            v = self.const(fr, o[1], o[2] if len(o) > 2 else None)
            if isinstance(v, tuple):
                return self.promoted(st, fr, v[1])
            ty = fr.body["T"][o[2]] if len(o) > 2 and isinstance(o[2], int) else None
            if v is UNIT and ty is not None:
                if ty["k"] == "fndef":
                    return T("fn", ty["key"], ty["path"])
                if ty["k"] == "closure":
                    return T("closure", ty["key"], ())
                if ty["k"] == "adt":
                    return T("agg", ty["key"], 0, ())
            return v
        if o[0] == "fn":
            return T("fn", o[1].get("r") or o[1]["key"], o[1]["path"])
        raise Exception("operand %r" % (o,))

    def promoted(self, st, fr, i):
        pr = fr.body["promoted"]
        p = pr[i] if i < len(pr) else None
        if p is None:
            return T("promoted", fr.key, i)
        return self.m.eval_promoted(self, fr, p, i)

    def pty(self, fr, pl):
        ty = fr.body["T"][fr.body["locals"][pl[0]]]
        for e in pl[1]:
            if e == "*":
                ty = fr.body["T"][ty["to"]] if ty and "to" in ty else None
            elif e[0] == "f":
                ty = fr.body["T"][e[2]] if isinstance(e[2], int) else None
            elif e[0] == "d":
                pass
            else:
                ty = None
        return ty

    def oty(self, fr, o):
        if o[0] in ("cp", "mv"):
            return self.pty(fr, o[1])
        if o[0] == "c" and len(o) > 2 and isinstance(o[2], int):
            return fr.body["T"][o[2]]
        return None

    def rvalue(self, st, fr, r, line):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            root, path = self.place(st, fr, r[2])
            if root.op == "V" and not path:
                return root.a[0] if not r[1] else T("ref", root, path)
            return T("ref", root, self.plain(path))
        if k == "addr":
            root, path = self.place(st, fr, r[2] if len(r) > 2 else r[1])
            return T("ref", root, self.plain(path))
        if k == "bin":
            return self.binop(st, fr, r[1], r[2], r[3])
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                return neg(v)
            if r[1] == "PtrMetadata":
                return self.m.length(self, st, self.val(st, v))
            return T("un", r[1], v)
        if k == "discr":
            root, path = self.place(st, fr, r[1])
            v = self.load(st, root, path)
            if v.op == "ref":
                v = self.val(st, v)
            pty = self.pty(fr, r[1])
            if pty is not None and pty["k"] == "adt":
                self.dsckey[v] = pty["key"]
            if v.op == "agg" and v.a[0] == RES and v.a[1] == 1:
                self.h.on_fail(self, st, v, fr, line)
            return T("dsc", v)
        if k == "agg":
            vs = [self.operand(st, fr, x) for x in r[2]]
            a = r[1]
            if a[0] == "adt":
                return T("agg", a[1], a[2], tuple(vs))
            if a[0] == "tuple":
                return T("tup", tuple(vs))
            if a[0] == "array":
                return T("arr", tuple(vs))
            if a[0] == "closure":
                return T("closure", a[1], tuple(vs))
            return T("aggx", str(a), tuple(vs))
        if k == "cast":
            if r[1] == "BoxDerefTransmute" or (len(r) > 2 and r[2][0] in ("cp", "mv") and r[1].startswith("BoxDeref")):
                root, path = self.place(st, fr, r[2][1])
                return T("ref", root, self.plain(path))
            v = self.operand(st, fr, r[2])
            if v.op == "bool":
                return T("int", 1 if v.a[0] else 0)     # bool as integer
            return v
        if k == "repeat":
            return T("arrn", self.operand(st, fr, r[1]))
        if k == "len":
            root, path = self.place(st, fr, r[1])
            return self.m.length(self, st, self.load(st, root, path))
        return T("rv", repr(r))

    def plain(self, path):
        return path

    def binop(self, st, fr, op, oa, ob):
        a = self.operand(st, fr, oa)
        b = self.operand(st, fr, ob)
        ty = self.oty(fr, oa) or self.oty(fr, ob)
        tk = ty["k"] if ty else None
        signed = tk == "int"
        if signed:
            for x in (a, b):
                bx, _ = split_lin(x)
                if bx is not ZERO:
                    self.signed.add(bx)
        isint = tk in ("int", "uint") or (ty is None)
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op == "AddWithOverflow":
            r = add(a, b)
            if signed:
                self.signed.add(split_lin(r)[0])
            return tup(r, T("ovf", "add", a, b))
        if op == "SubWithOverflow":
            r = sub(a, b)
            if signed:
                self.signed.add(split_lin(r)[0])
                return tup(r, T("ovf", "subs", a, b))
            return tup(r, lt(a, b))
        if op == "MulWithOverflow":
            return tup(T("mul", a, b), T("ovf", "mul", a, b))
        if op in ("Mul", "Div", "Rem", "BitXor", "Shl", "Shr"):
            return T("arith", op, a, b)
        if op == "BitAnd":
            return self.band(a, b)
        if op == "BitOr":
            if a.op == "bool":
                return TRUE if a.a[0] else b
            if b.op == "bool":
                return TRUE if b.a[0] else a
            return T("or", a, b)
        if op in ("Eq", "Ne"):
            a2, b2 = self.val(st, a), self.val(st, b)
            if tk in ("int", "uint"):
                r = ieq(a2, b2)
            elif tk == "bool":
                if b2.op == "bool":
                    r = a2 if b2.a[0] else neg(a2)
                elif a2.op == "bool":
                    r = b2 if a2.a[0] else neg(b2)
                else:
                    r = eqv(a2, b2)
            elif a2.op == "dsc" or b2.op == "dsc":
                r = self.dsc_eq(a2, b2)
            else:
                r = eqv(a2, b2)
            return r if op == "Eq" else neg(r)
        if op == "Lt":
            return lt(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Le":
            return neg(lt(b, a))
        if op == "Ge":
            return neg(lt(a, b))
        if op == "Cmp":
            return T("cmp", a, b)
        return T("arith", op, a, b)

    def band(self, a, b):
        if a.op == "bool":
            return b if a.a[0] else FALSE
        if b.op == "bool":
            return a if b.a[0] else FALSE
        return T("and", a, b)

    def dsc_eq(self, a, b):
        if a.op == "dsc" and b.op == "int":
            return T("isv", a.a[0], b.a[0])
        if b.op == "dsc" and a.op == "int":
            return T("isv", b.a[0], a.a[0])
        if a.op == "dsc" and b.op == "dsc":
            x, y = a.a[0], b.a[0]
            if x.op == "agg":
                x, y = y, x
            if y.op == "agg":
                return T("isv", x, self.discr_of_variant(y.a[0], y.a[1]))
            return eqv(T("dsc", x), T("dsc", y))
        return eqv(a, b)

    # ---------------------------------------------------------------- body execution
    def run(self, key, setup=None, args=None):
        """analyse entry function; returns list of (retval, state)"""
        body = self.p.bodies[key]
        fr = self.new_frame(key, None, 0)
        st = St()
        vals = []
        for i in range(body["argc"]):
            ty = body["T"][body["locals"][i + 1]]
            nm = "a%d" % (i + 1)
            for n, pl in body["names"]:
                if pl[0] == i + 1 and not pl[1]:
                    nm = n
            if ty["k"] == "ref":
                vals.append(T("ref", T("P", nm), ()))
            else:
                vals.append(T("sym", nm))
        if args:
            for i, v in args.items():
                vals[i] = v
        if setup:
            setup(self, st, vals)
        return self.exec_frame(fr, vals, st)

    def exec_frame(self, fr, vals, st):
        for i, v in enumerate(vals):
            st.mem[self.L(fr, i + 1)] = v
        self.visited_bodies.add(fr.key)
        return self.exec_blocks(fr, st)

    def exec_blocks(self, fr, st0):
        body = fr.body
        cfg = self.p.cfg(fr.key)
        pending = defaultdict(list)
        heads = {}
        pending[0].append((None, st0))
        exits = []
        import heapq
        heap = [(cfg.rpo[0], 0)]
        inq = {0}
        while heap:
            if time.time() > self.deadline:
                raise Budget("analysis budget exceeded in %s" % fr.body["path"])
            _, b = heapq.heappop(heap)
            inq.discard(b)
            states = pending.pop(b, [])
            if not states:
                continue
            todo = []
            if b in cfg.heads:
                acc = heads.setdefault(b, {})
                changed = set()
                for pred, s in states:
                    be = pred is not None and (pred, b) in cfg.back
                    if be:
                        s = self.rename_loop(fr, cfg, b, s)
                    self.prune(s, fr, cfg, b)
                    self.h.on_loop(self, s, fr, b, be)
                    sg = self.sig(s, fr)
                    if sg in acc:
                        new, ch = self.join(acc[sg], s, fr, b)
                        if ch:
                            acc[sg] = new
                            changed.add(sg)
                    else:
                        acc[sg] = s
                        changed.add(sg)
                if len(acc) > 400:
                    raise Budget("too many loop states in %s" % fr.body["path"])
                todo = [acc[sg].copy() for sg in acc if sg in changed]
            else:
                todo = [s for _, s in states]
                if len(todo) > 1:
                    for s in todo:
                        self.prune(s, fr, cfg, b)
                    todo = self.merge(todo, fr, b, self.h.cap)
            for s in todo:
                self.n_states += 1
                for nb, ns in self.exec_block(fr, b, s):
                    if nb is None:
                        exits.append(ns)
                    else:
                        pending[nb].append((b, ns))
                        if nb not in inq:
                            inq.add(nb)
                            heapq.heappush(heap, (cfg.rpo.get(nb, 1 << 30), nb))
        out = []
        for s in exits:
            r = self.load(s, self.L(fr, 0))
            out.append((r, s))
        return out

    def finish(self, fr, outs, cap=None):
        cap = cap or self.h.exitcap
        """drop the callee's locals, merge equal exits"""
        res = []
        bn = getattr(self.h, "blank_norm", False)
        for r, s in outs:
            if bn and self.m.isblank(r):
                r = self.m.BLANK
            for k in list(s.mem):
                if k.op == "L" and k.a[0] == fr.fid and k.a[1] != "ret":
                    del s.mem[k]
            rk = T("L", fr.fid, "ret")
            s.mem[rk] = r
            res.append(s)
        if len(res) > 1:
            for s in res:
                self.prune_alive(s, None)
            res = self.merge(res, fr, "ret", cap)
        out = []
        for s in res:
            rk = T("L", fr.fid, "ret")
            r = s.mem.pop(rk)
            out.append((r, s))
        return out

    def merge(self, states, fr, b, cap):
        # identical memory: intersect facts
        groups = {}
        order = []
        kf = self.h.keep_facts
        if kf:
            cap = max(cap, 600)
        for s in states:
            k = (self.h.ps_key(s.ps), frozenset(s.mem.items()), frozenset(s.dirty.items()), frozenset(s.sv.items()))
            if kf:
                k = k + (frozenset(s.facts.items()),)
            if k in groups:
                g = groups[k]
                for f in list(g.facts):
                    if f not in s.facts or s.facts[f] != g.facts[f]:
                        fa, fb = g.facts[f], s.facts.get(f)
                        if isinstance(fa, frozenset) and isinstance(fb, frozenset) and (fa & fb):
                            g.facts[f] = fa & fb
                        else:
                            del g.facts[f]
                g.ps = self.h.join_ps(g.ps, s.ps)
            else:
                groups[k] = s
                order.append(k)
        res = [groups[k] for k in order]
        if len(res) <= cap:
            return res
        acc = {}
        for s in res:
            sg = self.sig(s, fr)
            if sg in acc:
                acc[sg], _ = self.join(acc[sg], s, fr, b)
            else:
                acc[sg] = s
        return list(acc.values())

    # ------------------------------------------------------------ state shaping
    def shape(self, t, d=0):
        o = t.op
        if o == "agg":
            if d >= 2:
                return (t.a[0][-8:], t.a[1])
            return (t.a[0][-8:], t.a[1]) + tuple(self.shape(x, d + 1) for x in t.a[2])
        if o == "tup":
            if d >= 2:
                return "t"
            return ("t",) + tuple(self.shape(x, d + 1) for x in t.a[0])
        if o == "bool":
            return t.a[0]
        if o == "ref":
            return ("r", t.id) if d == 0 else "r"
        return "*"

    def sig(self, st, fr):
        items = []
        for k, v in st.mem.items():
            if k.op == "L":
                sh = self.shape(v)
                if sh != "*":
                    items.append((k.id, sh))
        items.sort(key=lambda x: x[0])
        return (self.h.ps_key(st.ps), tuple(items), self.extra_sig(st))

    def extra_sig(self, st):
        return None

    def join_term(self, a, b, slot, fr, blk, sa, sb):
        if a is b:
            return a
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            return T("agg", a.a[0], a.a[1], tuple(self.join_term(x, y, slot + (i,), fr, blk, sa, sb) for i, (x, y) in enumerate(zip(a.a[2], b.a[2]))))
        if a.op == "tup" and b.op == "tup" and len(a.a[0]) == len(b.a[0]):
            return T("tup", tuple(self.join_term(x, y, slot + (i,), fr, blk, sa, sb) for i, (x, y) in enumerate(zip(a.a[0], b.a[0]))))
        if a.op == "closure" and b.op == "closure" and a.a[0] == b.a[0]:
            return T("closure", a.a[0], tuple(self.join_term(x, y, slot + (i,), fr, blk, sa, sb) for i, (x, y) in enumerate(zip(a.a[1], b.a[1]))))
        c = self.m.join_coll(self, a, b, lambda x, y, i: self.join_term(x, y, slot + (i,), fr, blk, sa, sb))
        if c is not None:
            return c
        # expand an unknown value against an aggregate when its variant is known
        for x, y, sx in ((a, b, sa), (b, a, sb)):
            if x.op != "agg" and y.op == "agg" and y.a[0] in self.p.adts:
                nv = len(self.p.adts[y.a[0]]["variants"])
                d = self.discr(sx, x) if nv > 1 else 0
                if nv == 1 or (d is not None and d == self.discr_of_variant(y.a[0], y.a[1])):
                    nf = len(self.p.adts[y.a[0]]["variants"][y.a[1]]["f"])
                    if nf == len(y.a[2]) and x.op not in ("uninit",):
                        ex = T("agg", y.a[0], y.a[1], tuple(T("fld", x, y.a[1], i) for i in range(nf)))
                        if x is a:
                            return self.join_term(ex, b, slot, fr, blk, sa, sb)
                        return self.join_term(a, ex, slot, fr, blk, sa, sb)
        return T("phi", fr.fid, blk, slot)

    def join(self, a, b, fr, blk):
        """least upper bound of a (accumulated) and b (incoming); returns (state, changed)"""
        r = St()
        changed = False
        keys = set(a.mem) | set(b.mem)
        for k in keys:
            va, vb = a.mem.get(k), b.mem.get(k)
            if va is None or vb is None:
                if k.op in ("N", "E"):
                    present = va if va is not None else vb
                    sm = b if va is not None else a
                    lz = self.lazy_explicit(sm, k, present)
                    if va is None:
                        va = lz
                    else:
                        vb = lz
                elif k.op == "P":
                    if va is None:
                        va = self.lazy(k)
                    else:
                        vb = self.lazy(k)
                else:
                    if va is not None:
                        changed = True
                    continue
            j = self.join_term(va, vb, (k,), fr, blk, a, b)
            r.mem[k] = j
            if a.mem.get(k) is not j:
                changed = True
        # versions
        for attr in ("dirty", "sv"):
            da, db = getattr(a, attr), getattr(b, attr)
            rd = getattr(r, attr)
            for k in set(da) | set(db):
                x, y = da.get(k), db.get(k)
                if x is y:
                    rd[k] = x
                else:
                    ph = T("phi", fr.fid, blk, ("ver",) + tuple(k))
                    rd[k] = ph
                    if x is not ph:
                        changed = True
        # facts: keep what both agree on
        for f, v in a.facts.items():
            w = b.facts.get(f)
            if w is not None and w == v and type(w) == type(v):
                r.facts[f] = v
            elif isinstance(v, frozenset) and w is not None:
                ww = w if isinstance(w, frozenset) else None
                if ww is None:
                    if isinstance(w, int) and w not in v:
                        r.facts[f] = v
                    else:
                        pass
                else:
                    x = v & ww
                    if x:
                        r.facts[f] = x
            else:
                # implied by the other side?
                if v is True or v is False:
                    if f.op in ("lt", "ieq") and self.evalb(b, f) is v:
                        r.facts[f] = v
                        continue
        # facts only in b that a implies
        for f, v in b.facts.items():
            if f not in a.facts and f.op in ("lt",) and v is True and self.evalb(a, f) is True:
                pass
        r.ps = self.h.join_ps(a.ps, b.ps)
        if self.h.ps_key(r.ps) != self.h.ps_key(a.ps) or r.ps != a.ps:
            changed = True
        # new phis: drop facts about stale phi instances
        newphis = frozenset(t for t in self._phis_introduced(a, r, fr, blk))
        if newphis:
            for f in list(r.facts):
                if not f.atoms.isdisjoint(newphis):
                    del r.facts[f]
        oldphis = set()
        for v in r.mem.values():
            for t in v.atoms:
                if t.op == "phi" and t.a[0] == fr.fid and t.a[1] == blk:
                    oldphis.add(t)
        if oldphis:
            self.phi_facts(a, b, r, oldphis)
        if not changed:
            for f, v in a.facts.items():
                w = r.facts.get(f)
                if w is None or w != v or type(w) != type(v):
                    changed = True
                    break
        return r, changed

    def phi_facts(self, a, b, r, newphis):
        """facts about a new phi that hold of the value on both sides"""
        inv = {}
        for k, j in r.mem.items():
            va, vb = a.mem.get(k), b.mem.get(k)
            if va is None or vb is None:
                continue
            self._pair(va, vb, j, newphis, inv)
        for ph, (x, y) in inv.items():
            dx, dy = self.discr(a, x), self.discr(b, y)
            if dx is not None and dx == dy:
                r.facts[self.dterm(r, ph)] = dx
            self.m.phi_node_facts(self, a, b, r, ph, x, y)

    def _pair(self, x, y, j, newphis, inv):
        if j.op == "phi":
            if j in newphis:
                inv[j] = (x, y)
            return
        if j.op == "agg" and x.op == "agg" and y.op == "agg":
            for p, q, s in zip(x.a[2], y.a[2], j.a[2]):
                self._pair(p, q, s, newphis, inv)
        elif j.op == "tup" and x.op == "tup" and y.op == "tup":
            for p, q, s in zip(x.a[0], y.a[0], j.a[0]):
                self._pair(p, q, s, newphis, inv)

    def _phis_introduced(self, a, r, fr, blk):
        olds = set()
        for v in a.mem.values():
            olds |= v.atoms
        for v in a.dirty.values():
            olds |= v.atoms
        for v in a.sv.values():
            olds |= v.atoms
        out = set()
        for coll in (r.mem, r.dirty, r.sv):
            for v in coll.values():
                for t in v.atoms:
                    if t.op == "phi" and t.a[0] == fr.fid and t.a[1] == blk and t not in olds:
                        out.add(t)
        return out

    def lazy_explicit(self, st, root, like):
        """value of a lazily known node, expanded like `like` when its variant is known"""
        v = self.load(st, root, ())
        if like.op == "agg":
            d = self.discr(st, T("nd" if root.op == "N" else "ed", root.a[0], root.a[1]))
            if d is not None and d == self.discr_of_variant(like.a[0], like.a[1]):
                return self._le(st, root, (), like)
        return v

    def _le(self, st, root, pre, like):
        fs = []
        for i, x in enumerate(like.a[2]):
            p2 = pre + (("f", like.a[1], i),)
            if x.op == "agg" and x.a[0] in self.p.adts and len(self.p.adts[x.a[0]]["variants"]) == 1:
                fs.append(self._le(st, root, p2, x))
            else:
                fs.append(self.load(st, root, p2))
        return T("agg", like.a[0], like.a[1], tuple(fs))

    def in_loop(self, t, fr, cfg, head):
        """is the volatile term generated inside the loop body (or by a callee called from it)?"""
        if t.op in ("prev", "lost"):
            return False
        fid, blk = t.a[0], t.a[1]
        body = cfg.heads[head]
        if fid == fr.fid:
            return blk in body and not (t.op == "phi" and blk == head)
        f = self.frames.get(fid)
        while f is not None and f.parent is not None:
            if f.parent.fid == fr.fid:
                return f.block in body
            f = f.parent
        return False

    def rename_loop(self, fr, cfg, head, st):
        atoms = set()
        for v in st.mem.values():
            atoms |= v.atoms
        for k in st.mem:
            atoms |= k.atoms
        for f, v in st.facts.items():
            atoms |= f.atoms
        for d in (st.dirty, st.sv):
            for k, v in d.items():
                atoms |= v.atoms
                for x in k:
                    if isinstance(x, Term):
                        atoms |= x.atoms
        for t in self.h.ps_atoms(st.ps):
            atoms |= t.atoms
        m = {}
        for t in atoms:
            if t.op == "prev" and t.a[1] == (fr.fid, head):
                m[t] = T("lost", t.a[0], (fr.fid, head))
            elif t.op in ("fresh", "phi", "st") and self.in_loop(t, fr, cfg, head):
                m[t] = T("prev", t, (fr.fid, head))
            elif t.op == "phi" and t.a[0] == fr.fid and t.a[1] == head:
                # this head's phi: stale unless the slot still holds it
                if not self.slot_holds(st, t):
                    m[t] = T("prev", t, (fr.fid, head))
        if not m:
            return st
        return self.subst_state(st, m)

    def slot_holds(self, st, ph):
        slot = ph.a[2]
        if slot[0] == "ver":
            k = tuple(slot[1:])
            return st.dirty.get(k) is ph or st.sv.get(k) is ph
        v = st.mem.get(slot[0])
        if v is None:
            return False
        for i in slot[1:]:
            if v.op == "agg" and i < len(v.a[2]):
                v = v.a[2][i]
            elif v.op == "tup" and i < len(v.a[0]):
                v = v.a[0][i]
            elif v.op == "closure" and i < len(v.a[1]):
                v = v.a[1][i]
            else:
                return False
        return v is ph

    def subst_state(self, st, m):
        memo = {}
        n = St()
        for k, v in st.mem.items():
            n.mem[subst(k, m, memo)] = subst(v, m, memo)
        for f, v in st.facts.items():
            f2 = subst(f, m, memo)
            if any(t.op == "lost" for t in f2.atoms):
                continue
            n.facts[f2] = v
        for k, v in st.dirty.items():
            n.dirty[tuple(subst(x, m, memo) for x in k)] = subst(v, m, memo)
        for k, v in st.sv.items():
            n.sv[tuple(subst(x, m, memo) for x in k)] = subst(v, m, memo)
        n.ps = self.h.ps_subst(st.ps, lambda t: subst(t, m, memo))
        return n

    def prune(self, st, fr, cfg, b):
        live = cfg.live[b]
        self.prune_alive(st, (fr, live))

    def prune_alive(self, st, cur):
        keep = set()
        work = []
        for k in st.mem:
            if k.op == "L":
                if cur is None or k.a[0] != cur[0].fid or k.a[1] in cur[1] or k.a[1] == "ret":
                    # frames other than the current one are callers: keep
                    keep.add(k)
                    work.append(st.mem[k])
            elif k.op == "P":
                keep.add(k)
                work.append(st.mem[k])
        atoms = set()
        for t in self.h.ps_atoms(st.ps):
            atoms |= t.atoms
            work.append(t)
        for t in self.pins:
            atoms |= t.atoms
            work.append(t)
        while True:
            while work:
                v = work.pop()
                atoms |= v.atoms
                for r in v.roots:
                    if r in st.mem and r not in keep:
                        keep.add(r)
                        work.append(st.mem[r])
            added = False
            for k in st.mem:
                if k not in keep and k.op not in ("L",) and k.atoms <= atoms:
                    keep.add(k)
                    work.append(st.mem[k])
                    added = True
            if not added:
                break
        for k in list(st.mem):
            if k not in keep:
                del st.mem[k]
        for v in st.dirty.values():
            atoms |= v.atoms
        for v in st.sv.values():
            atoms |= v.atoms
        for f in list(st.facts):
            if f.atoms and not f.atoms <= atoms:
                del st.facts[f]

    # ------------------------------------------------------------ blocks
    def exec_block(self, fr, b, st):
        bl = fr.body["blocks"][b]
        self.cur_block = b
        try:
            for s in bl["s"]:
                if s[0] == "=":
                    v = self.rvalue(st, fr, s[2], s[3])
                    root, path = self.place(st, fr, s[1])
                    self.cur_block = b
                    self.store(st, root, path, v, fr, s[3])
                elif s[0] == "setdiscr":
                    pass
        except Dead:
            return []
        t = bl["t"]
        line = bl["l"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [(None, st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "switch":
            return self.do_switch(fr, b, st, t, line)
        if k == "assert":
            c = self.operand(st, fr, t[1])
            out = []
            if c.op == "ovf":
                c2 = c
                if self.evalb(st, c) is None:
                    s2 = st.copy()
                    s2.facts[c] = True
                    self.h.panics_on = c
                    self.h.on_panic(self, s2, "overflow", fr, line)
                    st.facts[c] = False
                return [(t[4], st)]
            for truth, s in self.branch(st, c, fr, line):
                if truth == t[2]:
                    out.append((t[4], s))
                else:
                    self.h.panics_on = c
                    self.h.on_panic(self, s, str(t[3]), fr, line)
            return out
        if k == "call":
            try:
                res = self.do_call(fr, b, st, t, line)
            except Dead:
                return []
            out = []
            if t[4] is None:
                return []
            for v, s in res:
                try:
                    root, path = self.place(s, fr, t[3])
                    self.cur_block = b
                    self.store(s, root, path, v, fr, line)
                    out.append((t[4], s))
                except Dead:
                    pass
            return out
        raise Exception("terminator %r" % (t,))

    def do_switch(self, fr, b, st, t, line):
        v = self.operand(st, fr, t[1])
        vals = [(int(x), bb) for x, bb in t[2]]
        if v.op == "dsc":
            base = v.a[0]
            out = []
            for d, s in self.split_discr(st, base, [x for x, _ in vals], fr, line):
                if d is None:
                    if t[3] is None:
                        continue
                    # otherwise-branch: may pin a two-variant enum
                    other = self.m.remaining(self, s, base, [x for x, _ in vals])
                    if other == "none":
                        continue
                    if isinstance(other, int):
                        if not self.set_discr(s, base, other, fr, line):
                            continue
                    out.append((t[3], s))
                else:
                    bb = dict(vals).get(d, t[3])
                    if bb is not None:
                        out.append((bb, s))
            return out
        ty = self.oty(fr, t[1])
        if ty is not None and ty["k"] == "bool" or v.op in ("bool", "not", "eqv", "ieq", "lt", "and", "or", "isv"):
            out = []
            for truth, s in self.branch(st, v, fr, line):
                d = 1 if truth else 0
                bb = dict(vals).get(d, t[3])
                if bb is not None:
                    out.append((bb, s))
            return out
        # integer / char switch
        out = []
        cur = st
        for x, bb in vals:
            c = ieq(v, const_int(x)) if v.op != "char" else None
            if c is None:
                c = TRUE if ord(v.a[0]) == x else FALSE
            nxt = None
            for truth, s in self.branch(cur, c, fr, line):
                if truth:
                    out.append((bb, s))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        if t[3] is not None:
            out.append((t[3], cur))
        return out

    # ------------------------------------------------------------ calls
    def targs(self, fr, info):
        out = []
        for a in info.get("args", ()):
            s = fr.body["T"][a]["s"] if isinstance(a, int) else str(a)
            out.append(self.gs(fr, s))
        return out

    def gs(self, fr, s):
        if s in fr.gsub:
            return fr.gsub[s]
        if fr.gsub:
            for k, v in fr.gsub.items():
                if re.match(r"^\w+$", k) and k in s:
                    s = re.sub(r"\b%s\b" % re.escape(k), lambda m: v, s)
        return s

    def do_call(self, fr, b, st, t, line):
        f = t[1]
        args = [self.operand(st, fr, x) for x in t[2]]
        atys = [self.oty(fr, x) for x in t[2]]
        if f[0] == "fn":
            info = f[1]
            return self.call(fr, b, st, info, args, atys, line, diverges=t[4] is None)
        # call through a value
        fv = self.operand(st, fr, f)
        return self.call_value(fr, b, st, fv, args, line)

    def call(self, fr, b, st, info, args, atys, line, diverges=False):
        key = info.get("r") or info["key"]
        r = self.h.on_call(self, st, key, info, args, fr, line)
        if r is not None:
            return r
        if diverges and info["path"].endswith("process::exit"):
            self.h.on_event(self, st, "exit", {"code": args[0] if args else None}, fr, line)
            return []
        if diverges:
            self.h.panics_on = None
            self.h.on_panic(self, st, info["path"], fr, line)
            return []
        nm = self.m.short(info["path"])
        body = self.p.bodies.get(key)
        special = self.models.get(nm)
        if body is not None and special is not None and body.get("derived") is not True and nm in self.m.PREFER_BODY:
            special = None
        if body is not None and not (special is not None and nm not in self.m.PREFER_BODY):
            if not body.get("derived") or special is None:
                if not self.h.opaque(self, key) and not self.in_stack(fr, key) and fr.depth < 40:
                    return self.inline(fr, b, st, key, args, info, line)
                return self.opaque_call(fr, b, st, key, info, args, atys, line)
        if special is not None:
            c = Ctx(self, fr, b, info, args, atys, line)
            return special(c, st)
        return self.default_call(fr, b, st, info, args, atys, line)

    def inline(self, fr, b, st, key, args, info, line, extra=""):
        nf = self.new_frame(key, fr, b, extra)
        if "{closure" in key and info is not None and len(args) == 2 and info["path"].split("::")[-2] in ("Fn", "FnMut", "FnOnce"):
            tv = self.val(st, args[1])
            if tv.op == "tup" and len(tv.a[0]) == nf.body["argc"] - 1:
                args = [args[0]] + list(tv.a[0])
        nf.chain = fr.chain + ((fr.body["file"], line, fr.body["path"]),)
        # generic substitution
        gp = nf.body.get("gparams") or []
        if info is not None:
            ra = info.get("rargs") if info.get("r") == key else info.get("args")
            ts = [self.gs(fr, fr.body["T"][a]["s"] if isinstance(a, int) else str(a)) for a in (ra or [])]
            if len(ts) == len(gp):
                nf.gsub = dict(zip(gp, ts))
            elif gp and len(ts) > len(gp):
                nf.gsub = dict(zip(gp, ts[-len(gp):]))
            elif gp and ts:
                nf.gsub = dict(zip(gp[-len(ts):], ts))
        if not nf.gsub and fr.gsub and "{closure" in key:
            nf.gsub = fr.gsub
        if "{closure" in key:
            nf.gsub = dict(fr.gsub)
            f2 = fr
            pk = key.rsplit("::{closure", 1)[0]
            while f2 is not None:
                if f2.key == pk:
                    nf.gsub.update(f2.gsub)
                    break
                f2 = f2.parent
        outs = self.exec_frame(nf, args, st)
        outs = self.finish(nf, outs)
        self.cur_block = b
        return outs

    def call_value(self, fr, b, st, f, args, line, extra=""):
        """call a closure / fn item / unknown callable with a list of arguments"""
        fv = f
        sref = None
        n = 0
        while fv.op == "ref" and n < 10:
            sref = fv
            fv = self.load(st, fv.a[0], fv.a[1])
            n += 1
        if fv.op == "closure":
            key = fv.a[0]
            body = self.p.bodies[key]
            self_ty = body["T"][body["locals"][1]]
            if self_ty["k"] == "ref":
                selfv = sref if sref is not None else T("ref", T("V", fv), ())
            else:
                selfv = fv
            if self.in_stack(fr, key):
                return self.opaque_call(fr, b, st, key, None, args, [None] * len(args), line)
            return self.inline(fr, b, st, key, [selfv] + list(args), None, line, extra)
        if fv.op == "fn":
            key, path = fv.a[0], fv.a[1]
            mm = CTOR.match(path)
            if mm and len(args) == 1:
                return [(T("agg", RES if mm.group(1) == "Result" else OPT, 0 if mm.group(2) == "Ok" else 1, tuple(args)), st)]
            info = {"key": key, "path": path, "args": [], "r": key, "rpath": path, "name": path.split("::")[-1]}
            return self.call(fr, b, st, info, list(args), [None] * len(args), line)
        # unknown callable (user closure)
        r = self.h.on_event(self, st, "usercall", {"f": fv, "args": args, "extra": extra}, fr, line)
        for a in args:
            if a.op == "ref" and self.is_mut_user_arg(fr, fv, a):
                self.havoc(st, a, fr, b, line)
        return [(T("fresh", fr.fid, b, "user" + extra), st)]

    def is_mut_user_arg(self, fr, fv, a):
        # generic FnMut(&mut Tree, ..) callbacks are the only callables that receive &mut
        return "FnMut" in self.user_bounds.get(fv, "") if hasattr(self, "user_bounds") else False

    def havoc(self, st, ref, fr, b, line, tag="hvc"):
        root, path = self.deref_loc(st, ref)
        v = T("fresh", fr.fid, b, tag)
        self.store(st, root, path, v, fr, line)
        return v

    def opaque_call(self, fr, b, st, key, info, args, atys, line):
        self.h.on_event(self, st, "opaque", {"key": key, "args": args, "info": info}, fr, line)
        body = self.p.bodies[key]
        for i, a in enumerate(args):
            ty = body["T"][body["locals"][i + 1]] if i + 1 <= body["argc"] else None
            if ty is not None and ty["k"] == "ref" and ty.get("mut") and a.op == "ref":
                self.havoc(st, a, fr, b, line, "op%d" % i)
        return [(T("fresh", fr.fid, b, "ret"), st)]

    def default_call(self, fr, b, st, info, args, atys, line):
        nm = self.m.short(info["path"])
        self.unknown[nm] = self.unknown.get(nm, 0) + 1
        self.h.on_event(self, st, "extern", {"name": nm, "info": info, "args": args}, fr, line)
        muts = False
        for i, (a, ty) in enumerate(zip(args, atys)):
            if ty is not None and ty["k"] == "ref" and ty.get("mut") and a.op == "ref":
                muts = True
                self.havoc(st, a, fr, b, line, "ext%d" % i)
        if muts:
            return [(T("fresh", fr.fid, b, "ext"), st)]
        return [(T("app", nm) if not args else T("app", nm, *[self.deep(st, a) for a in args]), st)]


class Ctx(object):
    """call context handed to library models"""
    __slots__ = ("e", "fr", "b", "info", "args", "atys", "line")

    def __init__(self, e, fr, b, info, args, atys, line):
        self.e, self.fr, self.b, self.info, self.args, self.atys, self.line = e, fr, b, info, args, atys, line

    def v(self, st, i):
        return self.e.val(st, self.args[i])

    def fresh(self, tag=""):
        return T("fresh", self.fr.fid, self.b, tag)

    def call(self, st, f, args, extra=""):
        n = len(self.e.pins)
        self.e.pins.extend(x for x in args if isinstance(x, Term))
        try:
            return self.e.call_value(self.fr, self.b, st, f, args, self.line, extra)
        finally:
            del self.e.pins[n:]

    def event(self, st, name, **kw):
        return self.e.h.on_event(self.e, st, name, kw, self.fr, self.line)

    def panic(self, st, kind, on=None):
        self.e.h.panics_on = on
        self.e.h.on_panic(self.e, st, kind, self.fr, self.line)

    def targs(self):
        return self.e.targs(self.fr, self.info)

    def setref(self, st, i, val):
        root, path = self.e.deref_loc(st, self.args[i])
        self.e.cur_block = self.b
        self.e.store(st, root, path, val, self.fr, self.line)
