"""C14: edits keep every node but the root under exactly one parent, give terminals no children, leave no nonterminal childless and create no cycle."""
import re
from rt import *
from terms import *
import engine, models
from c_conllx import strip_ver, ctx
from c_effects import Invariants
from c_kinds import entries, edge_els

PREV = ("prev", "lost", "phi")


def tree_arg(b):
    """the parameter that is the edited tree"""
    for i, t in enumerate(b["inputs"]):
        if re.match(r"&('\S+ )?mut (\w+::)*Tree$", b["T"][t]["s"]):
            return i
    return None


def editors(p):
    for k in entries(p):
        b = p.bodies[k]
        if tree_arg(b) is not None and "{closure" not in b["path"]:
            yield k


class Shape(Invariants):
    """ghost state, a set of items over node indices:
      ("i", x, n)        primary parents of x changed by n more than its place in the tree allows
      ("o", x)           x may have no child
      ("got", x, y)      x got the child y
      ("dr", x, E)       E is a primary edge below x, drawn in the current pass of a loop
      ("di", x, E)       the primary edge E above x was drawn
      ("each", x, n, d, l)  loop l changed the parents of nodes below x by n; d: the edge to x was taken away
      ("full", x, l)     loop l visited all nodes below x
      ("one", x)         x has exactly one child
      ("sib", x)         x has a sibling
      ("eq", x, y), ("ne", x, y)   comparisons made
      ("ne*", x, end)    x was compared with nodes found by climbing; end: climbing went on to the root
      ("up", x, E), ("gap",)   climbing came over E to x, it was not used yet; a turn of a loop ended without using such a node
      ("ended",)         climbing from some node reached the root
      ("new", x)         x was added
      ("dead",)          contradicts the tree's shape
      ("root0", x)       the root the tree had"""
    MAY = ("up", "gap", "i", "o", "di", "gone", "each", "dr", "root0")
    cap, exitcap = 100, 100
    coarse = False

    def __init__(self, r, p, name, tree, inner):
        Invariants.__init__(self, r, p)
        self.name, self.tree, self.inner = name, tree, inner
        self.found, self.quants = {}, {}
        self.edges = self.removed = self.added = self.undecided = self.calls = 0

    def opaque(self, e, key):
        return key in self.inner

    # -- ghost state
    def join_ps(self, a, b):
        a, b = a or frozenset(), b or frozenset()
        if ("dead",) in a or ("dead",) in b:
            return b if ("dead",) in a else a
        return frozenset(x for x in a | b if x[0] in self.MAY or x in a and x in b)

    def ps_key(self, ps):
        return frozenset(x for x in ps or () if x[0] not in ("di", "dr", "full", "sib", "many", "one") or x[0] == "sib" and self.depth(x[1]) < 1) if self.coarse else ps or frozenset()

    def ps_effect(self, ps):
        return frozenset(x for x in ps or () if x[0] in ("i", "o", "got", "each", "gone", "new", "root0"))

    def ps_atoms(self, ps):
        return [x for it in ps or () for x in it[1:] if isinstance(x, Term)]

    def ps_subst(self, ps, f):
        return frozenset(tuple(f(x) if isinstance(x, Term) else x for x in it) for it in ps) if ps else ps

    def its(self, st, *kinds):
        return [x for x in st.ps or () if x[0] in kinds]

    def put(self, st, *its):
        if self.dead(st) or ("dead",) in its:
            st.ps = frozenset({("dead",)})
            return
        st.ps = (st.ps or frozenset()) | frozenset(its)

    def drop(self, st, its):
        st.ps = (st.ps or frozenset()) - frozenset(its)

    def dead(self, st):
        return ("dead",) in (st.ps or ())

    def flag(self, st, key, msg, fr=None, line=0):
        if not self.dead(st):
            self.found.setdefault(key, ("%s %s" % (self.name, msg), loc(fr, line) if fr is not None else self.name))

    # -- names of nodes that do not depend on the edge they were reached by
    def canon(self, st, t):
        return self.find(st, self.name_of(t))

    def name_of(self, t):
        t = strip_ver(t)
        if t.op == "src":
            E = t.a[1]
            up = self.above(E)
            if up is not None:
                return T("par", self.name_of(up))
            lo = self.below(E)
            if lo is not None:
                return self.name_of(lo)
            return T("par", T("tgt", t.a[0], E))
        if t.op == "tgt":
            up = self.above(t.a[1])
            if up is not None:
                return self.name_of(up)
        return t

    def above(self, E):
        """E is the edge above the node returned"""
        if E.op == "el" and isinstance(E.a[0], Term) and E.a[0].op == "it" and E.a[0].a[0] == "edges" and E.a[0].a[3] == 1 and self.untouched(E.a[0]):
            return E.a[0].a[2]
        return None

    def below(self, E):
        """E is an edge below the node returned"""
        if E.op == "el" and isinstance(E.a[0], Term) and E.a[0].op == "it" and E.a[0].a[0] == "edges" and E.a[0].a[3] == 0 and self.untouched(E.a[0]):
            return E.a[0].a[2]
        return None

    def untouched(self, it):
        v = it.a[4] if len(it.a) > 4 else ()
        return v == () or isinstance(v, Term) and v.op == "tup" and not v.a[0]

    def find(self, st, t):
        seen = {t}
        work = [t]
        while work:
            x = work.pop()
            for i in self.its(st, "eq"):
                for a, b in ((i[1], i[2]), (i[2], i[1])):
                    if a is x and b not in seen:
                        seen.add(b)
                        work.append(b)
            if x.op == "par":
                # the parent of equal nodes
                for y in list(seen):
                    pass
        if len(seen) == 1:
            if t.op == "par":
                n = self.find(st, t.a[0])
                # a node drawn below x has x above it
                if n.op == "tgt":
                    lo = self.below(n.a[1])
                    if lo is not None:
                        return self.find(st, self.name_of(lo))
                if n is not t.a[0]:
                    return self.find(st, T("par", n)) if not any(n is y for y in subterms(t.a[0])) else T("par", n)
            return t
        rep = min(seen, key=lambda y: (y.op == "par", len(str(y)), y.id))
        return rep

    def nonterminal(self, e, st, g, x):
        names = {x, self.canon(st, x)}
        names |= {y for i in self.its(st, "eq") for y in i[1:] if self.canon(st, y) is self.canon(st, x)}
        return any(e.discr(st, e.load(st, T("N", g, y), ())) == self.R.v_nt for y in names)

    def root(self, e, st):
        z = self.its(st, "root0")
        if z:
            return self.canon(st, z[0][1])
        return self.canon(st, e.val(st, e.load(st, self.tree, (("f", 0, self.R.t_root, self.R.tree_key),))))

    def mine(self, e, st, g):
        own = e.val(st, e.load(st, self.tree, (("f", 0, self.R.t_graph, self.R.tree_key),)))
        return g is own

    def bump(self, st, x, n):
        x = self.canon(st, x)
        old = [i for i in self.its(st, "i") if self.canon(st, i[1]) is x]
        self.drop(st, old)
        n += sum(i[2] for i in old)
        if n:
            self.put(st, ("i", x, n))

    def children(self, st, x):
        return [i for i in self.its(st, "got") if self.canon(st, i[1]) is x]

    def open(self, st, x):
        self.put(st, ("o", x))

    def close(self, st, x):
        self.drop(st, [i for i in self.its(st, "o") if self.canon(st, i[1]) is x])

    # -- comparisons
    def on_assume(self, e, st, cond, truth, fr, line):
        if Invariants.on_assume(self, e, st, cond, truth, fr, line) is False:
            return False
        t = cond
        while isinstance(t, Term) and t.op == "not":
            t, truth = t.a[0], (not truth if isinstance(truth, bool) else truth)
        if not isinstance(t, Term):
            return None
        if self.dead(st):
            return None
        if t.op == "discr" and truth == self.R.v_prim:
            E = strip_ver(t.a[0])
            if E.op == "ed" and self.above(E.a[1]) is not None:
                x = self.canon(st, self.above(E.a[1]))
                if self.depth(x) < 2:
                    self.put(st, ("di", x, E.a[1]))
                if x.op == "sym":
                    self.put(st, ("up", self.canon(st, T("src", E.a[0], E.a[1])), E.a[1]))
        if t.op == "eqv" and isinstance(truth, bool) and self.is_node(t.a[0]) and self.is_node(t.a[1]):
            a, b = self.canon(st, t.a[0]), self.canon(st, t.a[1])
            if truth:
                if a is not b:
                    r = self.root(e, st)
                    if (a is r or b is r) and any(self.depth(x) > 1 or any(y.op in PREV for y in subterms(x)) for x in (a, b)):
                        self.reached(st)
                    self.put(st, ("eq", a, b))
            else:
                self.differ(st, a, b)
        elif t.op == "app" and "contains" in str(t.a[0]) and truth is False and len(t.a) > 2 and self.is_node(t.a[2]):
            self.absent(e, st, list(self.skeletons(e.deep(st, t.a[1]))), self.canon(st, t.a[2]))
        elif t.op == "quant" and t in self.quants and truth is (t.a[0] == "all"):
            xs, ys = self.quants[t]
            for y in ys:
                if not any(y is x for x in xs):
                    self.absent(e, st, xs, self.canon(st, y))
        for c in subterms(t):
            if c.op in ("count", "len", "gcount"):
                self.counted(e, st, cond, truth if t is cond else not truth if isinstance(truth, bool) else truth, c)
        return None

    def absent(self, e, st, coll, x):
        """x is none of the nodes given"""
        if self.depth(x) or any(y.op in PREV for y in subterms(x)):
            return
        if len(coll) > 1 and self.ended(st):
            self.put(st, ("ne*", x, True))
        for s in coll:
            if s.op == "hole" or any(y.op == "hole" for y in subterms(s)) and self.up_of(s) is None or s.op in PREV:
                self.put(st, ("ne*", x, self.ended(st)))
            elif self.up_of(s) is not None:
                self.differ(st, x, self.canon(st, T("par", self.name_of(self.up_of(s)))))
            elif self.is_node(s):
                self.differ(st, x, self.canon(st, s))
            else:
                self.put(st, ("ne*", x, self.ended(st)))
                for y in subterms(s):
                    if self.is_node(y):
                        self.differ(st, x, self.canon(st, y))

    def skeletons(self, v):
        for y in subterms(v):
            if y.op == "elems":
                for s in y.a:
                    yield s.a[0] if isinstance(s, Term) and s.op == "where" else s
                return
        yield v

    def up_of(self, s):
        """skeleton of the parent of a node: that node"""
        if s.op == "src" and s.a[1].op == "el":
            return self.above(s.a[1])
        return None

    def reached(self, st):
        """climbing came to the root"""
        part = [i for i in self.its(st, "ne*") if not i[2]]
        self.drop(st, part)
        self.put(st, ("ended",), *[i[:2] + (not self.its(st, "gap"),) for i in part])

    def met(self, st, x):
        self.drop(st, [i for i in self.its(st, "up") if self.canon(st, i[1]) is x])

    def ended(self, st):
        return bool(self.its(st, "ended")) and not self.its(st, "gap")

    def differ(self, st, a, b):
        self.met(st, a)
        self.met(st, b)
        if a is b:
            st.ps = frozenset({("dead",)})
            return
        for x, y in ((a, b), (b, a)):
            if any(z.op in PREV or z.op == "el" for z in subterms(x)):
                continue
            if self.depth(x):
                continue
            if any(z.op in PREV for z in subterms(y)) or self.depth(y) > 1:
                self.put(st, ("ne*", x, self.ended(st)))
            elif not any(z.op == "el" for z in subterms(y)):
                self.put(st, ("ne", x, y))

    def depth(self, x):
        n = 0
        while x.op == "par":
            n, x = n + 1, x.a[0]
        return n

    def is_node(self, t):
        return isinstance(t, Term) and (t.op in ("src", "tgt", "sym", "par") or t.op in PREV or t.op == "fresh" and t.a[-1] == "newnode"
                                        or t.op == "fld" and t.a[2] == self.R.t_root or t.op == "el" and isinstance(t.a[0], Term) and t.a[0].op == "it" and t.a[0].a[0] in ("nodes", "dfs"))

    def base(self, t):
        for y in subterms(t):
            if y.op == "it" and y.a[0] == "edges" and y.a[3] == 0:
                return y
        return None

    def without(self, e, st, it):
        """the nodes a filter over the children of a node leaves out; None if it leaves out something else"""
        out = set()
        for y in subterms(it):
            if y.op == "it" and y.a[0] in ("skip", "take", "step", "takewhile", "skipwhile", "chain", "zip"):
                return None
        for x, s, _ in models.draw(self.c, st.copy(), it, "c14w"):
            if x is None:
                continue
            for E in edge_els(x):
                for f, d in s.facts.items():
                    if f in st.facts and st.facts[f] == d or not any(y is E for y in subterms(f)):
                        continue
                    if f.op == "eqv" and d is False:
                        a, b2 = (f.a[0], f.a[1]) if any(y is E for y in subterms(f.a[0])) else (f.a[1], f.a[0])
                        out.add(self.canon(s, b2))
                    elif f.op == "has" or f.op == "discr" and strip_ver(f.a[0]).op == "ed" and d == self.R.v_prim:
                        continue
                    else:
                        return None
        return out

    def counted(self, e, st, cond, truth, c):
        b = self.base(c)
        it = c.a[0] if isinstance(c.a[0], Term) else None
        if b is None or it is None or not self.untouched(b):
            return
        out = self.without(e, st, it)
        if out is None:
            return
        par = self.canon(st, b.a[2])
        s = st.copy()
        if not e.assume1(s, cond, truth):
            return

        def no(k):
            s2 = s.copy()
            return not e.assume1(s2, ieq(T("int", k), c), True)
        if not out:
            if self.nonterminal(e, s, b.a[1], b.a[2]) or par.op == "par":
                e.assume1(s, ieq(T("int", 0), c), False)    # a nonterminal has children
            if no(0) and no(1):
                self.put(st, ("many", par))
            s2 = s.copy()
            if not no(1) and not e.assume1(s2, lt(T("int", 1), c), True):
                self.put(st, ("one", par))
        else:
            for y in out:
                if self.canon(st, T("par", y)) is par and no(0):
                    self.put(st, ("sib", y))

    def on_quant(self, e, st, before, found, t, rest):
        self.siblings(e, st)
        # nodes that differ from every element if the predicate fails (any) or holds (all) throughout
        out = None
        for x, s in rest:
            ys = set()
            v = strip_ver(e.val(s, x))
            for f, d in s.facts.items():
                if f.op == "eqv" and d is False:
                    ys |= {y for y, z in ((f.a[0], f.a[1]), (f.a[1], f.a[0])) if self.is_node(y) and strip_ver(z) is v}
            out = ys if out is None else out & ys
        if out:
            self.quants[t] = ([models.skeleton(e.val(st, x)) for x, _ in rest], out)

    def siblings(self, e, st):
        """a drawn child that is known to differ from another child"""
        for f, d in list(st.facts.items()):
            if f.op == "eqv" and d is False:
                for a, b in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                    if a.op == "tgt" and self.below(a.a[1]) is not None and self.untouched(a.a[1].a[0]) and self.is_node(b):
                        y = self.canon(st, b)
                        if self.canon(st, T("par", y)) is self.canon(st, self.below(a.a[1])) and e.discr(st, e.load(st, T("E", a.a[0], a.a[1]), ())) == self.R.v_prim:
                            self.put(st, ("sib", y))

    # -- walks
    def on_draw(self, e, st, it, x, c):
        if x is None or self.dead(st):
            return
        self.siblings(e, st)
        for E in edge_els(x):
            lo = self.below(E)
            if lo is not None:
                if self.collected(E):
                    continue
                self.drop(st, self.its(st, "dr"))
                self.put(st, ("dr", self.canon(st, lo), E))

    def done(self, e, st, it, fr, loop):
        b = None
        for y in subterms(it):
            if y.op == "it" and y.a[0] == "edges":
                b = y
                break
        if b is None:
            return
        x = self.canon(st, b.a[2])
        if b.a[3] == 1:
            if not self.untouched(b):
                return
            if self.depth(x) > 1 or any(y.op in PREV for y in subterms(x)):
                self.reached(st)
                if self.depth(x) > 1:
                    return
            di = [i for i in self.its(st, "di") if self.canon(st, i[1]) is x]
            if any(y.op == "fresh" and y.a[0] == fr.fid for i in di for y in i[2].a):
                return
            if di:
                self.put(st, ("dead",))     # this walk over the edges above x should have come across it
                return
            r = self.root(e, st)
            if x.op == "tgt" and e.discr(st, e.load(st, T("E", x.a[0], x.a[1]), ())) == self.R.v_prim or any(i[1] is x and i[2] is r for i in self.its(st, "ne")):
                self.put(st, ("dead",))     # only the root has no parent
            elif x is not r:
                self.put(st, ("eq", x, r))
            return
        out = self.without(e, st, it)
        if out is None or out:
            return
        if not any(self.canon(st, i[1]) is x for i in self.its(st, "each") if i[4] == loop) and e.discr(st, e.load(st, T("N", b.a[1], b.a[2]), ())) == self.R.v_nt and not any(i[1] is x for i in self.its(st, "new")):
            self.put(st, ("dead",))         # a nonterminal has children
        self.put(st, ("full", x, loop))

    def collected(self, E):
        return not any(y.op == "fresh" and str(y.a[-1]).startswith(("nx", "fe")) for y in E.a)

    def loop_of(self, E):
        """number of the loop an edge was drawn in"""
        for y in E.a[1:]:
            for z in subterms(y):
                if z.op == "fresh":
                    return "%s:%s" % z.a[:2]
        return ""

    def on_loop(self, e, st, fr, block, back):
        if not back:
            return
        for i in self.its(st, "dr"):
            if any(y.op in ("prev", "lost") for y in subterms(i[2])):
                self.turn(st, i)
        up = [i for i in self.its(st, "up") if any(y.op in ("prev", "lost") for y in subterms(i[2]))]
        if up:
            self.drop(st, up)
            self.put(st, ("gap",))
        # comparisons with earlier elements say nothing any more
        self.drop(st, [i for i in self.its(st, "sib", "di", "got", "gone", "eq", "ne", "ne*", "many", "one", "full") if any(y.op in ("lost", "prev") for x in i[1:] if isinstance(x, Term) for y in subterms(x))
                       and not (i[0] == "got" and not any(y.op in ("lost", "prev") for y in subterms(i[1])))])

    def turn(self, st, i):
        """a turn of the loop over the nodes below i[1] ends"""
        E = i[2]
        self.drop(st, [i])
        x = self.canon(st, T("tgt", E.a[0].a[1], E))
        k = [j for j in self.its(st, "i") if self.canon(st, j[1]) is x]
        gone = [j for j in self.its(st, "gone") if j[1] is E]
        self.drop(st, k + gone)
        self.put(st, ("each", i[1], sum(j[2] for j in k), bool(gone), self.loop_of(E)))

    def totals(self, st, x):
        """[(how the number of parents of a node below x changed in all loops, whether its edge to x was taken away)]"""
        out = {(0, False)}
        by = {}
        for i in self.its(st, "each"):
            if self.canon(st, i[1]) is x:
                by.setdefault(i[4], set()).add(i[2:4])
        for l in sorted(by):
            out = {(a + n, g or d) for a, g in out for n, d in by[l]}
        return out, by

    # -- changes
    def on_event(self, e, st, name, args, fr, line):
        if self.dead(st):
            return None
        if name == "exhausted":
            self.done(e, st, args["it"], fr, "%s:%s" % (fr.fid, args.get("b")))
            return None
        if name in ("push", "sinsert"):
            x = e.val(st, args["x"])
            if self.is_node(x):
                self.met(st, self.canon(st, x))
        if name == "iterated":
            for i in self.its(st, "dr"):
                if any(E is i[2] for E in edge_els(args["x"])):
                    self.turn(st, i)
            return None
        if name in ("opaque", "usercall"):
            self.calls += 1
            if name == "opaque":
                self.balance(e, st, "before it calls %s" % e.p.bodies[args["key"]]["path"].split("::")[-1], fr, line)
                st.ps = frozenset(x for x in st.ps or () if x[0] == "dead")
            return None
        g = args.get("g") if isinstance(args, dict) else None
        if g is None or name not in ("add_node", "remove_node", "add_edge", "remove_edge") or not self.mine(e, st, g):
            return None
        R = self.R
        if name == "add_node":
            self.added += 1
            x = self.canon(st, args["idx"])
            self.put(st, ("new", x))
            self.bump(st, x, -1)
            if e.discr(st, e.val(st, args["w"])) != R.v_t:
                self.open(st, x)
        elif name == "add_edge":
            self.edges += 1
            k = e.discr(st, e.val(st, args["w"]))
            if k == R.v_sec:
                return None
            if k is None:
                self.undecided += 1
            s, t = self.canon(st, args["src"]), self.canon(st, args["tgt"])
            kd = e.discr(st, e.load(st, T("N", g, args["src"]), ()))
            if kd != R.v_nt and not self.known_parent(e, st, args["src"], s):
                self.flag(st, "leaf:%s" % fr.body["path"], "attaches a node below one that may be a terminal", fr, line)
            if not self.acyclic(e, st, s, t):
                self.flag(st, "cycle:%s" % fr.body["path"], "attaches a node below one that may be dominated by it", fr, line)
            self.bump(st, t, 1)
            self.close(st, s)
            if not self.children(st, s):
                self.put(st, ("got", s, t))
        elif name == "remove_edge":
            self.removed += 1
            k = e.discr(st, e.val(st, args["w"]))
            if k == R.v_sec:
                return None
            s, t = self.canon(st, args["src"]), self.canon(st, args["tgt"])
            self.bump(st, t, -1)
            for i in self.its(st, "dr"):
                if i[2] is args["idx"]:
                    self.put(st, ("gone", i[2]))
            self.loses(st, s, t)
        elif name == "remove_node":
            self.removed += 1
            self.take(e, st, g, args, fr, line)
        return None

    def loses(self, st, s, t):
        got = self.children(st, s)
        if any(self.canon(st, i[2]) is not t for i in got):
            return
        self.drop(st, got)
        if any(self.canon(st, i[1]) is t for i in self.its(st, "sib")) or any(self.canon(st, i[1]) is s for i in self.its(st, "many")):
            return
        self.open(st, s)

    def take(self, e, st, g, args, fr, line):
        R = self.R
        x = self.canon(st, args["idx"])
        r = self.root(e, st)
        new = any(i[1] is x for i in self.its(st, "new"))
        kind = e.discr(st, e.val(st, args["w"]))
        # what is below it
        if kind != R.v_t and not new:
            each = [i for i in self.its(st, "each") if self.canon(st, i[1]) is x]
            full = {i[2] for i in self.its(st, "full") if self.canon(st, i[1]) is x}
            one = any(self.canon(st, i[1]) is x for i in self.its(st, "one"))
            kids = [i for i in self.its(st, "i") if self.canon(st, T("par", i[1])) is x]
            if each:
                tot, by = self.totals(st, x)
                if any(l not in full and any(n or d for n, d in by[l]) for l in by):
                    self.flag(st, "part:%s" % fr.body["path"], "removes a nonterminal although not every node below it was given a new parent", fr, line)
                elif any(n - (0 if d else 1) for n, d in tot):
                    self.flag(st, "orphan:%s" % fr.body["path"], "removes a nonterminal and leaves nodes below it without a parent, or with more than one", fr, line)
                self.drop(st, each)
            elif one and len(kids) == 1:
                self.bump(st, kids[0][1], -1)
            elif full and not kids:
                pass
            else:
                self.flag(st, "orphan:%s" % fr.body["path"], "removes a nonterminal without giving all nodes below it a new parent", fr, line)
        for i in self.its(st, "got"):
            if self.canon(st, i[1]) is x:
                self.bump(st, i[2], -1)
        # what is above it
        up = self.canon(st, T("par", x))
        self.drop(st, [i for i in self.its(st, "i", "o") if self.canon(st, i[1]) is x])
        if x is not r and not new:
            self.loses(st, up, x)

    def known_parent(self, e, st, raw, s):
        if self.is_parent(e, st, strip_ver(raw)) or s.op == "par":
            return True
        return any(self.canon(st, i[1]) is s for i in self.its(st, "got", "dr", "each", "many", "one"))

    def acyclic(self, e, st, s, t):
        r = self.root(e, st)
        new = {i[1] for i in self.its(st, "new")}
        if s is t:
            return False
        if t in new and not self.children(st, t):
            return True
        x, seen = s, []
        while x in new:
            seen.append(x)
            ups = [i[1] for i in self.its(st, "got") if self.canon(st, i[2]) is x]
            if not ups:
                return t not in seen
            x = self.canon(st, ups[0])
            if x in seen:
                return False
        # x was in the tree before
        up = T("par", t)
        for _ in range(4):
            up = self.canon(st, up)
            if up is x:
                return True
            up = T("par", up)
        n = 0
        while True:
            if x is r:
                return True
            if not any(i[1] is t and i[2] is x for i in self.its(st, "ne")):
                break
            x = self.canon(st, T("par", x))
            n += 1
            if n > 8:
                return True
        return n > 1 and any(i[1] is t and i[2] for i in self.its(st, "ne*"))

    def on_write(self, e, st, root, path, val, fr, line):
        R = self.R
        if root is self.tree and path and path[-1][0] == "f" and path[-1][3] == R.tree_key and path[-1][2] == R.t_root and not self.dead(st):
            old = e.val(st, e.load(st, root, path))
            if not self.its(st, "root0"):
                self.put(st, ("root0", self.canon(st, old)))
            self.bump(st, old, -1)
            self.bump(st, e.val(st, val), 1)

    # -- verdicts
    def balance(self, e, st, when, fr=None, line=0):
        if self.dead(st):
            return
        tot = {}
        for i in self.its(st, "i"):
            x = self.canon(st, i[1])
            tot[x] = tot.get(x, 0) + i[2]
        for x, n in sorted(tot.items(), key=lambda q: q[0].id):
            if n < 0:
                self.flag(st, "none", "can leave a node without a parent %s" % when, fr, line)
            elif n > 0:
                self.flag(st, "two", "can leave a node with more than one parent, or make a node with a parent the root, %s" % when, fr, line)
        for x in sorted({self.canon(st, i[1]) for i in self.its(st, "each")}, key=lambda x: x.id):
            tot, by = self.totals(st, x)
            part = len(by) > 1 and any(l not in {i[2] for i in self.its(st, "full") if self.canon(st, i[1]) is x} and any(n or d for n, d in by[l]) for l in by)
            if part or any(n for n, d in tot):
                self.flag(st, "each", "changes the number of parents of the nodes below a nonterminal %s" % when, fr, line)
        for i in self.its(st, "o"):
            self.flag(st, "childless", "can leave a nonterminal without children %s" % when, fr, line)

    def exits(self, e, ex):
        for v, st in ex:
            self.balance(e, st, "when it returns")


@check("C14", "ghost-state dataflow over MIR: the change of every node's number of parents, nodes that may have lost their last child, and ancestor tests made, tracked along every path of every editing operation",
       "other",
       "Every public operation that is given a tree to change. Calls of other such operations are checked to happen with the tree in shape and are covered by their own analysis. "
       "Trees built by readers and the decoder are not covered here.")
def c14(r):
    p, R = r.p, r.p.R
    r.rule("an operation that is given a tree in shape returns it in shape: per path, each node's primary parents add up to one (none for the root), no primary edge starts at a node that may be a terminal, "
           "a node is attached below another only where the path excludes that it dominates it, and a nonterminal loses a child only where it is known to have another or is given one")
    ks = list(editors(p))
    inner = {k for k in ks if "&" not in p.bodies[k]["T"][p.bodies[k]["output"]]["s"]}
    for k in sorted(ks):
        b = p.bodies[k]
        i = tree_arg(b)
        for coarse in (False, True):
            h = Shape(r, p, b["path"].split("::")[-1], None, inner - {k})
            h.coarse = coarse

            def setup(e, st, vals, h=h, i=i, k=k):
                h.c = ctx(e, k)
                h.tree = vals[i].a[0]
            try:
                e, ex = run(p, k, h, setup)
                break
            except engine.Budget:
                # once more with fewer states kept apart
                if coarse:
                    raise
        h.exits(e, ex)
        for key, (msg, where) in sorted(h.found.items()):
            r.bad("%s:%s" % (h.name, key), msg, where)
        r.ob(True, "operation:%s" % b["path"], "", "")
        r.count("operations")
        r.count("edges added", h.edges)
        r.count("removals", h.removed)
        r.count("nodes added", h.added)
        r.count("undecided", h.undecided)
        r.count("calls of other operations", h.calls)
        if h.edges or h.removed or h.added or h.calls:
            r.sample("%s: %d edges added, %d nodes added, %d removals, %d calls, %d ends of paths" % (b["path"], h.edges, h.added, h.removed, h.calls, len(ex)))
    r.floor("operations", r.counts.get("operations", 0), 15)
    r.floor("edges added", r.counts.get("edges added", 0), 8)
    r.floor("removals", r.counts.get("removals", 0), 4)
    r.floor("nodes added", r.counts.get("nodes added", 0), 4)
