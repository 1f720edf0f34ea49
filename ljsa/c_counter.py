"""C02: the stored number of discontinuous nonterminals stays equal to the real one."""
import re
from collections import Counter
from rt import *
from terms import *
import engine, models
from c_guard import guard_term, guard_is_zero_test, param_name
from c_conllx import strip_ver, ctx
from c_effects import Invariants, owngraph
from c_kinds import entries, graph_atom

ZERO = T("int", 0)


def base_of(it):
    """the iterator a chain of adaptors draws from, with the filters passed on the way"""
    fs = []
    while isinstance(it, Term):
        if it.op == "it" and it.a[0] in ("filter",):
            fs.append(it.a[2])
            it = it.a[1]
        elif it.op == "it" and it.a[0] in ("map", "rev", "cloned", "copied", "enumerate", "peekable", "fuse", "inspect", "cv", "by_ref"):
            it = it.a[1]
        elif it.op in ("cv", "coll", "elems"):
            it = next((x for x in it.a if isinstance(x, Term) and x.op in ("it", "cv", "coll", "elems")), None)
        else:
            return it, fs
    return None, fs


def is_disc(pe, R):
    return isinstance(pe, list) and pe[0] == "f" and pe[1] == R.t_disc and pe[3] == R.tree_key


class Balance(Invariants):
    """ghost state: what the counter and the real number of discontinuous nonterminals have changed by since they last agreed"""
    cap, exitcap = 80, 80
    local_writes = True

    def __init__(self, r, p, name):
        Invariants.__init__(self, r, p)
        self.name = name
        self.found, self.rcache = {}, {}
        self.ncounter = self.nspan = self.nnode = self.nrec = self.nloop = self.undecided = 0

    # -- ghost state: frozenset of
    #   ("k", g, coefficient)                counter moved by coefficient
    #   ("p", g, idx, old)                   node idx may have a different span than `old` (a node value, or 0)
    #   ("m", g, v)                          node value v was taken out
    #   ("rec", g, start)                    counter was set to zero, nodes are being recounted
    #   ("at", g, idx)                       node being recounted
    #   ("clean", g)                         a recount was completed
    #   ("z", g, idx)                        node added with a continuous span, before a recursive call
    #   ("cnt", g, n)                        n is the number of discontinuous nonterminals
    #   ("it", g)                            all nonterminals have been visited
    #   ("dr", g), ("dead", g)               a node was drawn / a walk over the tree found no node at all
    #   ("h", g, loop, k, n)                 what was open when the loop was entered
    #   ("bad", g, what, where)              left unbalanced
    def join_ps(self, a, b):
        return (a or frozenset()) | (b or frozenset())

    def ps_key(self, ps):
        return ps or frozenset()

    def ps_atoms(self, ps):
        return [x for it in ps or () for x in it[1:] if isinstance(x, Term)]

    def ps_subst(self, ps, f):
        if not ps:
            return ps
        return frozenset(tuple(f(x) if isinstance(x, Term) else x for x in it) for it in ps)

    def items(self, st, g, kind=None):
        return [x for x in st.ps or () if x[1] is g and (kind is None or x[0] == kind)]

    def put(self, st, *its):
        for x in its:
            if x[0] == "bad":
                self.clear(st, x[1], "bad")
        if its and its[0][0] in ("k", "kc", "p", "m", "z", "h") and self.items(st, its[0][1], "bad"):
            return
        st.ps = (st.ps or frozenset()) | frozenset(its)

    def drop(self, st, its):
        st.ps = (st.ps or frozenset()) - frozenset(its)

    def clear(self, st, g, *keep):
        st.ps = frozenset(x for x in st.ps or () if x[1] is not g or x[0] in keep or x[0] in ("it", "dr", "dead", "h"))

    def bump(self, st, g, n):
        k = sum(x[2] for x in self.items(st, g, "k"))
        self.drop(st, self.items(st, g, "k"))
        if k + n:
            self.put(st, ("k", g, k + n))

    # -- is a node discontinuous
    def disc(self, e, st, v):
        """1 / 0, or the term that decides it"""
        R = self.R
        v = e.val(st, v)
        k = e.discr(st, v)
        if k == R.v_t:
            return 0
        if k is None:
            sk = T("discr?", v)
            return sk
        x = e.proj(v, ("f", R.v_nt, 0, R.node_key))
        x = e.proj(x, ("f", 0, R.nt_span, R.nt_key))
        return self.span_disc(e, st, x)

    def node_disc(self, e, st, g, idx):
        """the same for a node of the graph, loaded field by field"""
        R = self.R
        root = T("N", g, idx)
        k = e.discr(st, e.load(st, root, ()))
        if k == R.v_t:
            return 0
        if k is None:
            return T("discr?", strip_ver(e.load(st, root, ())))
        x = e.val(st, e.load(st, root, (("f", R.v_nt, 0, R.node_key), ("f", 0, R.nt_span, R.nt_key), ("f", 0, R.s_skips, R.span_key))))
        d = e.discr(st, x)
        return T("discr", x) if d is None else d

    def term_disc(self, e, st, d):
        """decide a term recorded earlier"""
        if isinstance(d, Term) and d.op == "int":
            return d.a[0]
        if d.op == "discr":
            x = e.discr(st, d.a[0])
            if x is None:
                x = e.discr(st, strip_ver(d.a[0]))
            return d if x is None else x
        k = e.discr(st, d.a[0])
        return 0 if k == self.R.v_t else self.disc(e, st, d.a[0]) if k is not None else d

    def span_disc(self, e, st, x):
        x = e.proj(x, ("f", 0, self.R.s_skips, self.R.span_key))
        d = e.discr(st, x)
        if d is None:
            return T("discr", x)
        return d

    def delta(self, e, st, g):
        """counter minus real number since they last agreed: None if zero, else a description"""
        n, terms = 0, Counter()
        for x in self.items(st, g):
            if x[0] == "k":
                n += x[2]
            elif x[0] == "p":
                for s, d in ((-1, self.node_disc(e, st, g, x[2])), (1, self.term_disc(e, st, x[3]))):
                    if isinstance(d, int):
                        n += s * d
                    else:
                        terms[strip_ver(d)] += s
            elif x[0] == "m":
                d = self.term_disc(e, st, x[2])
                if isinstance(d, int):
                    n += d
                else:
                    terms[strip_ver(d)] += 1
        terms = {k: c for k, c in terms.items() if c}
        if not n and not terms:
            return None
        return n, terms

    def settle(self, e, st, g):
        """called where the two have to agree or at least be comparable"""
        its = [x for x in self.items(st, g) if x[0] in ("k", "kc", "p", "m", "at")]
        if its and self.delta(e, st, g) is None:
            self.drop(st, its)
            return True
        return not its

    # -- changes
    def touch(self, e, st, g, idx):
        if not any(x[2] is idx for x in self.items(st, g, "p")):
            old = self.node_disc(e, st, g, idx)
            z = [x for x in st.ps or () if x[0] == "z" and x[2] is idx]
            if z:
                self.drop(st, z)
                if not isinstance(old, int):
                    old = 0
            self.put(st, ("p", g, idx, self.rec(old)))

    def rec(self, d):
        return T("int", d) if isinstance(d, int) else d

    def tree_of(self, e, st, root, path):
        """graph and root of the tree whose counter is written"""
        R = self.R
        g = e.load(st, root, path + (("f", 0, R.t_graph, R.tree_key),))
        return e.val(st, g), e.val(st, e.load(st, root, path + (("f", 0, R.t_root, R.tree_key),)))

    def on_write(self, e, st, root, path, val, fr, line):
        R = self.R
        if root.op == "N":
            g, idx = root.a[0], root.a[1]
            if not path or any(pe[0] == "f" and pe[3] in (R.span_key,) and pe[2] == R.s_skips or pe[0] == "f" and pe[3] == R.nt_key and pe[2] == R.nt_span for pe in path) \
                    or len(path) == 1:
                self.nspan += 1
                self.touch(e, st, g, idx)
            return
        if root.op in ("P", "L") and path and path[-1][0] == "f" and path[-1][3] == R.tree_key and path[-1][2] == R.t_disc:
            self.counter(e, st, root, path, val, fr, line)

    def counter(self, e, st, root, path, val, fr, line):
        g, start = self.tree_of(e, st, root, path[:-1])
        old = e.val(st, e.load(st, root, path))
        new = e.val(st, val)
        self.ncounter += 1
        d = self.diff(new, old)
        if new.op == "int" and new.a[0] == 0 and (old.op != "int" or not d and not self.items(st, g, "rec")) and not (self.walked(st, g) and self.from_local(fr)):
            self.clear(st, g)
            self.put(st, ("rec", g, start))
        elif d is not None:
            self.bump(st, g, d)
        elif self.items(st, g, "cnt") and any(x[2] is new for x in self.items(st, g, "cnt")):
            self.clear(st, g)
            self.put(st, ("clean", g))
        elif new.op == "int" and new.a[0] == 0 and not self.walked(st, g):
            self.clear(st, g)
            self.put(st, ("rec", g, start))
        elif self.walked(st, g) and self.from_local(fr):
            # counted in a local variable while walking over the whole tree: how is not followed
            self.undecided += 1
            self.clear(st, g)
            self.put(st, ("clean", g))
        else:
            self.put(st, ("bad", g, "sets the number of discontinuous nonterminals to a value that is not known to be their number", loc(fr, line)))

    def walked(self, st, g):
        return self.items(st, g, "it") or self.items(st, g, "dead")

    def diff(self, new, old):
        def lin(t):
            c = Counter()
            n = 0
            work = [(t, 1)]
            while work:
                x, s = work.pop()
                if x.op == "int":
                    n += s * x.a[0]
                elif x.op == "lin":
                    n += s * x.a[1]
                    work.append((x.a[0], s))
                elif x.op == "add":
                    work += [(x.a[0], s), (x.a[1], s)]
                elif x.op == "sub":
                    work += [(x.a[0], s), (x.a[1], -s)]
                else:
                    c[x] += s
            return n, c
        a, b = lin(new), lin(old)
        c = Counter(a[1])
        c.subtract(b[1])
        if any(c.values()):
            return None
        return a[0] - b[0]

    def from_local(self, fr):
        """is the counter set from a variable here, rather than to a constant"""
        R = self.R
        for bl in fr.body["blocks"]:
            for x in bl["s"]:
                if x and x[0] == "=" and x[1][1] and is_disc(x[1][1][-1], R) and x[2][0] == "use" and x[2][1][0] in ("cp", "mv") and not x[2][1][1][1]:
                    return True
        return False

    # -- recount
    def whole(self, e, st, g, it, c=None):
        """does this iterator visit every nonterminal of the tree"""
        b, fs = base_of(it)
        if b is None:
            return False
        if b.op == "it" and b.a[0] == "dfs":
            d = b.a[1]
            if d.a[1] is not g:
                return False
            rec = self.items(st, g, "rec")
            if rec and strip_ver(d.a[2]) is not strip_ver(rec[0][2]):
                return False
        elif not (b.op == "it" and b.a[0] in ("nodes", "node_indices") and b.a[1] is g):
            return False
        return True if not fs else self.filters(e, st, g, fs, c)

    def filters(self, e, st, g, fs, c):
        """the filters let every discontinuous nonterminal pass"""
        R = self.R
        if c is None:
            return False
        n = c.fresh("c02n")
        st = st.copy()
        v = e.load(st, T("N", g, n), ())
        e.set_discr(st, v, R.v_nt)
        for f in fs:
            for res, s in c.call(st, f, [models.refto(n)], "c02"):
                if e.evalb(s, e.val(s, res)) is not True:
                    if self.node_disc(e, s, g, n) != 0:
                        return False
        return True

    def graphs(self, st):
        return {x[1] for x in st.ps or ()}

    def step(self, e, st, it, x, c, fr, line):
        b = base_of(it)[0]
        own = {b.a[1].a[1] if b.a[0] == "dfs" else b.a[1]} if b is not None and b.op == "it" and b.a[0] in ("dfs", "nodes") else set()
        for g in self.graphs(st) | own:
            if not self.items(st, g, "rec"):
                if self.whole(e, st, g, it, c):
                    if x is not None:
                        self.put(st, ("dr", g))
                    elif self.items(st, g, "dr"):
                        self.put(st, ("it", g))
                    else:
                        self.put(st, ("dead", g))
                continue
            if not self.whole(e, st, g, it, c):
                continue
            self.nrec += 1
            self.check_rec(e, st, g, fr, line)
            if x is None:
                bad = self.items(st, g, "bad")
                self.clear(st, g)
                self.put(st, ("clean", g), *bad)
            else:
                n = [y for y in subterms(x) if y.op == "el" and y.a[0] is base_of(it)[0]]
                if n:
                    self.put(st, ("p", g, n[0], ZERO), ("at", g, n[0]))

    def check_rec(self, e, st, g, fr, line):
        its = [x for x in self.items(st, g) if x[0] in ("k", "kc", "p", "m", "at")]
        if not its:
            return
        d = self.delta(e, st, g)
        self.drop(st, its)
        if d is not None:
            self.put(st, ("bad", g, "counts discontinuous nonterminals again but does not count each of them once", loc(fr, line)))

    def on_count(self, e, st, it, t, c):
        R = self.R
        b, fs = base_of(it)
        if b is None or b.op != "it" or b.a[0] not in ("nodes", "dfs"):
            return
        g = b.a[1] if b.a[0] == "nodes" else b.a[1].a[1]
        if not self.whole(e, st, g, it, c):
            return
        ok = True
        for x, s, _ in models.draw(c, st.copy(), it, "c02c"):
            if x is None:
                continue
            n = [y for y in subterms(x) if y.op == "el" and y.a[0] is b]
            ok = ok and bool(n) and self.node_disc(e, s, g, n[0]) == 1
        if ok:
            self.nrec += 1
            self.put(st, ("cnt", g, t))

    def on_event(self, e, st, name, args, fr, line):
        if name in ("draw", "exhausted"):
            self.step(e, st, args["it"], args.get("x"), self.c, fr, line)
            return None
        g = args.get("g") if isinstance(args, dict) else None
        if name == "add_node":
            self.nnode += 1
            self.put(st, ("p", g, args["idx"], ZERO))
            if self.recursive(e.p, fr.key) and self.disc(e, st, args["w"]) == 0:
                # induction: a recursive call leaves the nodes its caller added alone
                self.put(st, ("z", g, args["idx"]))
        elif name == "remove_node":
            self.nnode += 1
            ps = [x for x in self.items(st, g, "p") if x[2] is args["idx"]]
            self.drop(st, ps)
            old = ps[0][3] if ps else self.rec(self.disc(e, st, args["w"]))
            if old is not ZERO:
                self.put(st, ("m", g, old))
        elif name in ("usercall", "opaque"):
            vals = [args.get("f")] + list(args.get("args") or ())
            for g in self.graphs(st):
                if not self.settle(e, st, g) and not self.items(st, g, "bad"):
                    if any(isinstance(v, Term) and (g in set(subterms(v)) or any(x.op == "P" or x.op == "L" for x in v.roots)) for v in vals):
                        self.put(st, ("bad", g, "calls other code while the number of discontinuous nonterminals is out of date", loc(fr, line)))
        return None

    def on_loop(self, e, st, fr, block, back):
        self.nloop += 1
        at = T("tup", (T("int", fr.fid), T("int", block)))
        for g in list(self.graphs(st)):
            rec = self.items(st, g, "rec")
            if not rec or any(y.op in ("prev", "lost") and y.a[1] == (fr.fid, block) for x in self.items(st, g, "at") for y in subterms(x[2])):
                self.settle(e, st, g)
            now = (sum(x[2] for x in self.items(st, g, "k")), len(self.items(st, g, "p")) + len(self.items(st, g, "m")) + len(self.items(st, g, "kc")))
            head = [x for x in self.items(st, g, "h") if x[2] is at]
            if back and now[1] and not rec and now != ((0, 0) if not head else head[0][3:]):
                # an iteration has to balance what it changes
                self.put(st, ("bad", g, "changes spans or nodes in a loop without counting the discontinuous ones", loc(fr, 0)))
            elif back and now[0] and not now[1] and not rec and now[0] != (head[0][3] if head else 0):
                self.put(st, ("bad", g, "moves the number of discontinuous nonterminals in a loop without a change of spans", loc(fr, 0)))
            elif not back:
                self.drop(st, head)
                if any(now):
                    self.put(st, ("h", g, at) + now)

    def recursive(self, p, key):
        if key not in self.rcache:
            self.rcache[key] = any(bl["t"] and bl["t"][0] == "call" and bl["t"][1][0] == "fn" and bl["t"][1][1].get("key") == key for bl in p.bodies[key]["blocks"])
        return self.rcache[key]

    # -- verdicts
    def flag(self, key, msg, where):
        self.found.setdefault(key, (msg, where))

    def exits(self, e, ex, where, trees=None):
        R = self.R
        for v, st in ex:
            for g in list(self.graphs(st)):
                own = graph_atom(g) is None
                if self.items(st, g, "dead"):
                    continue    # a tree without any node
                if not own and not any(x is graph_atom(g) for x in subterms(e.deep(st, v))):
                    continue    # a graph that was built and thrown away
                for x in self.items(st, g, "bad"):
                    self.flag("bad:" + x[2][:24], "%s %s" % (self.name, x[2]), x[3])
                if self.items(st, g, "rec"):
                    self.flag("rec", "%s sets the number of discontinuous nonterminals to zero without counting them again" % self.name, where)
                    continue
                if not own and not self.items(st, g, "clean"):
                    # a tree built here: its counter starts from a constant
                    self.drop(st, self.items(st, g, "k"))
                    for c in self.counters(e, st, v, g):
                        if c.op == "int":
                            self.bump(st, g, c.a[0])
                        elif any(x.op in ("phi", "lost", "prev") for x in subterms(c)):
                            self.undecided += 1     # moved in a loop; each pass was balanced
                        elif g is not c:
                            self.flag("init", "%s returns a tree whose number of discontinuous nonterminals is not known" % self.name, where)
                d = self.delta(e, st, g)
                if d is not None:
                    self.flag("exit", "%s returns with the number of discontinuous nonterminals off%s" % (self.name, " by %d" % d[0] if not d[1] else ": a span that may be discontinuous was not accounted for"), where)

    def counters(self, e, st, v, g):
        for x in subterms(e.deep(st, v)):
            if x.op == "agg" and x.a[0] == self.R.tree_key and graph_atom(x.a[2][self.R.t_graph]) is graph_atom(g):
                yield x.a[2][self.R.t_disc]


def b_path(p, k):
    return p.bodies[k]["path"]


def graph_entries(p):
    """functions that are given a graph to build"""
    for k, b in sorted(p.bodies.items()):
        if b["crate"] != "lumberjack" or "{closure" in b["path"]:
            continue
        if any(re.search(r"&mut .*StableGraph", b["T"][t]["s"]) for t in b["inputs"]):
            yield k


def contracts(r):
    """spans: skips that are present are not empty, and answers about continuity agree with them"""
    p, R = r.p, r.p.R
    cont = [k for k, a in p.adts.items() if a.get("crate", "lumberjack") == "lumberjack" and re.search(r"\bContinuity$", a["path"])]
    disc = None
    if cont:
        vs = [i for i, v in enumerate(p.adts[cont[0]]["variants"]) if v["n"] == "Discontinuous"]
        disc = vs[0] if vs else None
    for k, b in sorted(p.bodies.items()):
        if b["crate"] != "lumberjack" or "{closure" in b["path"] or b.get("derived"):
            continue
        ins = [b["T"][t]["s"] for t in b["inputs"]]
        out = b["T"][b["output"]]["s"]
        muts = [i for i, s in enumerate(ins) if re.match(r"&('\S+ )?mut (\w+::)*(Span|NonTerminal|Node)$", s)]
        makes = re.search(r"(^|[<( ])(\w+::)*Span\b", out) and not re.search(r"&", out)
        asks = disc is not None and re.search(r"(^|::)Continuity$", out) and ins and re.search(r"(Span|NonTerminal)$", ins[0])
        if not (muts or makes or asks):
            continue
        e, ex = run(p, k, Invariants(r, p))
        r.count("span functions")
        for v, st in ex:
            vals = [e.deep(st, v)] + [e.deep(st, x) for root, x in st.mem.items() if root.op == "P"]
            for val in vals:
                for x in subterms(val):
                    if x.op == "agg" and x.a[0] == R.span_key:
                        sk = e.val(st, x.a[2][R.s_skips])
                        if sk.op == "agg" and sk.a[1] == 1:
                            r.count("spans built")
                            s = e.val(st, sk.a[2][0])
                            good = e.evalb(st, ieq(ZERO, T("len", s))) is False or s.op == "fld"
                            r.ob(good, "skips:%s" % b["path"], "%s can leave a span with an empty set of skipped positions, which counts as discontinuous" % b["path"], b["path"])
            if asks:
                self_ = T("P", param_name(b, 0))
                path = () if re.search(r"Span$", ins[0]) else (("f", 0, R.nt_span, R.nt_key),)
                d = e.discr(st, e.val(st, e.load(st, self_, path + (("f", 0, R.s_skips, R.span_key),))))
                a = e.discr(st, e.val(st, v))
                r.count("continuity answers")
                if d is not None and a is not None:
                    r.ob((a == disc) == (d == 1), "continuity:%s" % b["path"], "%s reports %s for a span that has %s" % (
                        b["path"], "discontinuous" if a == disc else "continuous", "skips" if d else "no skips"), b["path"])
                else:
                    r.count("continuity undecided")


@check("C02", "ghost-counter dataflow over MIR: the difference between the stored counter and the real number of discontinuous nonterminals is tracked symbolically along every path and must be zero at every return",
       "other",
       "Every public operation that touches a tree and every reader. Loops must balance per iteration; recounts must cover the whole tree and count each node once. "
       "Closures given by the caller only reach public operations.")
def c02(r):
    p, R = r.p, r.p.R
    r.rule("along every path, each write to a nonterminal's span, each added or removed node and each write to the counter is recorded; at every return, loop iteration and call of unknown code the counter must have moved "
           "by exactly the change in the number of nonterminals whose span has skips, or have been recounted over the whole tree")
    k = body(p, r"^tree::Tree::is_projective$")
    tv = T("sym", param_name(p.bodies[k], 0))
    e, ex = run(p, k, Invariants(r, p))
    for v, st in ex:
        v = e.val(st, v)
        cnt = e.val(st, e.load(st, T("P", tv.a[0]), (("f", 0, R.t_disc, R.tree_key),)))
        z = e.evalb(st, v)
        want = ieq(ZERO, cnt)
        good = v is want or z is not None and e.evalb(st, want) is z
        if not good and z is None:
            # decide the answer both ways
            good = True
            for truth in (True, False):
                s = st.copy()
                if e.assume1(s, v, truth):
                    good = good and e.evalb(s, want) is truth
        r.ob(good, "is_projective", "is_projective does not say whether the number of discontinuous nonterminals is zero", b_path(p, k))
    contracts(r)
    ks = sorted(set(entries(p)) | set(graph_entries(p)))
    for k in ks:
        b = p.bodies[k]
        h = Balance(r, p, b["path"])
        e, ex = run(p, k, h, lambda e, st, vals: setattr(h, "c", ctx(e, k)))
        h.exits(e, ex, b["path"])
        for key, (msg, where) in sorted(h.found.items()):
            r.bad("%s:%s" % (h.name, key), msg, where)
        r.ob(True, "entry:%s" % h.name, "", "")
        r.count("operations")
        r.count("counter writes", h.ncounter)
        r.count("span writes", h.nspan)
        r.count("node changes", h.nnode)
        r.count("recount steps", h.nrec)
        if h.nspan or h.nnode or h.ncounter:
            r.sample("%s: %d counter writes, %d span writes, %d nodes added or removed, %d recount steps" % (b["path"], h.ncounter, h.nspan, h.nnode, h.nrec))
    r.floor("operations", r.counts.get("operations", 0), 50)
    r.floor("counter writes", r.counts.get("counter writes", 0), 30)
    r.floor("span writes", r.counts.get("span writes", 0), 60)
    r.floor("node changes", r.counts.get("node changes", 0), 20)
    r.floor("counter writes", r.counts.get("counter writes", 0), 40)
    r.floor("spans built", r.counts.get("spans built", 0), 3)
