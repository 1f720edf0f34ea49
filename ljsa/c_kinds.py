"""C06: secondary edges never influence the constituency structure."""
import re
from rt import *
from terms import *
import engine, models
from c_guard import param_name
from c_conllx import strip_ver, ctx
from c_effects import Invariants, owngraph

OPEN, SEC, MIXED, QUANT = "open", "secondary", "mixed", "open and decided a question"
EDGE_IT = ("edges", "edgeidx", "neigh")


def edge_els(t):
    """edges drawn from the incidence lists of a graph a value is about"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, Term) and x not in seen:
            seen.add(x)
            if x.op == "el" and isinstance(x.a[0], Term) and x.a[0].op == "it" and x.a[0].a[0] in EDGE_IT:
                yield x
            if x.op != "it":
                st.extend(y for y in x.a if not (x.op == "el" and isinstance(y, Term) and y.op in ("it", "cv")))


def graph_atom(g):
    for x in subterms(g):
        if x.op in ("fresh", "graph"):
            return x
    return None


class Kinds(Invariants):
    """ghost state: the edges drawn on this path whose kind has not been looked at, or is known to be secondary"""
    cap, exitcap = 60, 60

    def __init__(self, r, p, name, secok=False, edit=False):
        Invariants.__init__(self, r, p)
        self.name, self.secok, self.edit = name, secok, edit
        self.found = {}         # key -> (graph atom, message, where)
        self.drawn = set()
        self.removed = set()
        self.added = set()

    # -- ghost state
    def join_ps(self, a, b):
        return (a or frozenset()) | (b or frozenset())

    def ps_key(self, ps):
        return ps or frozenset()

    def ps_subst(self, ps, f):
        return frozenset((f(x), s) for x, s in ps) if ps else ps

    def on_loop(self, e, st, fr, block, back):
        if back and st.ps:
            cfg = e.p.cfg(fr.key)
            st.ps = frozenset((x, s) for x, s in st.ps if not any(
                y.op in ("prev", "lost") and y.a[1] == (fr.fid, block) or y.op == "fresh" and e.in_loop(y, fr, cfg, block) for y in x.a[1:] if isinstance(y, Term)))

    def kind(self, e, st, el):
        if el.a[0].a[0] == "neigh":
            return None
        return e.discr(st, e.load(st, T("E", el.a[0].a[1], el), ()))

    def note(self, st, el, status):
        if self.found:
            st.ps = None        # one finding is enough
            return
        ps = set(st.ps or ())
        ps = {x for x in ps if x[0] is not el}
        if status and not (status == SEC and self.secok):
            ps.add((el, status))
        st.ps = frozenset(ps)

    def look(self, e, st, el):
        k = self.kind(e, st, el)
        self.note(st, el, OPEN if k is None else SEC if k == self.R.v_sec else None)

    def mixed(self, st, g):
        """can this graph hold secondary edges: not if it was built here and only given primary ones so far"""
        g = graph_atom(g)
        return g is None or (g, MIXED) in (st.ps or ())

    def on_draw(self, e, st, it, x, c):
        for el in edge_els(x):
            if not self.mixed(st, el.a[0].a[1]):
                continue
            self.drawn.add((el.a[0].a[0], loc(c.fr, c.line)))
            self.look(e, st, el)

    def on_quant(self, e, st, before, found, *_):
        """any / all: the elements that decide the answer"""
        if st.ps != before:
            st.ps = before
        for x, s in found:
            for el in edge_els(x):
                if self.mixed(st, el.a[0].a[1]):
                    k = self.kind(e, s, el)
                    if k is None or k == self.R.v_sec:
                        self.note(st, el, QUANT if k is None else SEC)

    def on_count(self, e, st, it, t, c):
        st2 = st.copy()
        for x, s, _ in models.draw(c, st2, it, "kc"):
            if x is None:
                continue
            for el in edge_els(x):
                if not self.mixed(st, el.a[0].a[1]):
                    continue
                k = self.kind(e, s, el)
                if k is None or k == self.R.v_sec:
                    self.note(st, el, QUANT if k is None else SEC)

    def on_assume(self, e, st, cond, truth, fr, line):
        if Invariants.on_assume(self, e, st, cond, truth, fr, line) is False:
            return False
        if not isinstance(cond, Term):
            return None
        if st.ps and cond.op == "discr":
            v = strip_ver(cond.a[0])
            if v.op == "ed" and isinstance(v.a[1], Term) and any(x is v.a[1] for x, _ in st.ps):
                self.note(st, v.a[1], None if truth == self.R.v_prim else SEC)
                return None
        for x in subterms(cond):
            if x.op == "gcount" and x.a[1] == "edges" and owngraph(x.a[0]) and not self.secok:
                self.flag(x.a[0], "count", "%s depends on the number of edges of both kinds" % self.name, loc(fr, line))
            elif x.op == "app" and str(x.a[0]).endswith("contains_edge") and not self.secok:
                self.flag(x.a[1], "contains", "%s depends on whether there is an edge of either kind" % self.name, loc(fr, line))
        return None

    # -- verdicts
    def flag(self, g, key, msg, where):
        self.found.setdefault(key, (graph_atom(g), msg, where))

    def effect(self, e, st, what, fr, line, *vals):
        """something observable happens: no edge may be under consideration whose kind is open or secondary"""
        if not st.ps:
            return
        for el, s in st.ps:
            if s == MIXED or s == SEC and (self.secok or self.edit_ok(e, st, el, vals)):
                continue
            if s == OPEN and vals and not any(x is el for v in vals for x in subterms(v)):
                continue
            if s in (OPEN, QUANT):
                self.flag(el.a[0].a[1], "open:%s" % what, "%s %s for an edge whose kind has not been looked at" % (self.name, what), loc(fr, line))
            else:
                self.flag(el.a[0].a[1], "sec:%s" % what, "%s %s because of a secondary edge" % (self.name, what), loc(fr, line))

    def edit_ok(self, e, st, el, vals):
        return False

    def on_write(self, e, st, root, path, val, fr, line):
        if root.op in ("N", "E") or root.op == "P":
            self.effect(e, st, "changes the tree", fr, line)
        if root.op == "E" and not path:
            a, b = e.discr(st, e.load(st, root, ())), e.discr(st, e.val(st, val))
            if a is not None and b is not None and a != b:
                self.flag(root.a[0], "turn", "%s turns an edge into one of the other kind" % self.name, loc(fr, line))

    def on_event(self, e, st, name, args, fr, line):
        R = self.R
        if name == "dfs" and args.get("raw") and args["name"] != "next" and self.mixed(st, args["g"]):
            self.flag(args["g"], "dfs", "%s walks the graph along edges of both kinds" % self.name, loc(fr, line))
        elif name == "graph_other" and self.mixed(st, args["g"]):
            self.flag(args["g"], "other", "%s uses StableGraph::%s, which treats both kinds of edges alike" % (self.name, str(args.get("name")).split("::")[-1]), loc(fr, line))
        elif name in ("add_edge", "add_node", "remove_node", "remove_edge"):
            self.effect(e, st, {"add_edge": "adds an edge", "add_node": "adds a node", "remove_node": "removes a node", "remove_edge": "removes an edge"}[name], fr, line)
            if name == "add_edge":
                k = e.discr(st, e.val(st, args["w"]))
                self.added.add((k, loc(fr, line)))
                g = graph_atom(args["g"])
                if k != R.v_prim and g is not None:
                    st.ps = (st.ps or frozenset()) | {(g, MIXED)}
            elif name == "remove_edge":
                k = e.discr(st, e.val(st, args["w"]))
                if k is None:
                    k = e.discr(st, T("ed", args["g"], args["idx"]))
                self.removed.add((k, loc(fr, line)))
                if k is None and self.mixed(st, args["g"]):
                    self.flag(args["g"], "remove", "%s removes an edge without looking at its kind" % self.name, loc(fr, line))
        elif name in ("write", "print"):
            self.effect(e, st, "writes output", fr, line)
        elif name == "push":
            for el, s in st.ps or ():
                if s == QUANT and not any(x is el for x in subterms(args["x"])):
                    self.flag(el.a[0].a[1], "open:lists a node", "%s lists a node because of an edge whose kind has not been looked at" % self.name, loc(fr, line))
        elif name == "usercall":
            self.effect(e, st, "calls the caller's closure", fr, line)
        elif name == "opaque":
            vals = [v for v in args.get("args") or () if isinstance(v, Term)]
            self.effect(e, st, "goes on to a node", fr, line, *vals)

    def exits(self, e, ex, where):
        for v, st in ex:
            for el, s in st.ps or ():
                if s == MIXED or s == SEC and self.secok:
                    continue
                if s in (OPEN, QUANT):
                    self.flag(el.a[0].a[1], "open:exit", "the result of %s depends on an edge whose kind has not been looked at" % self.name, where)
                else:
                    self.flag(el.a[0].a[1], "sec:exit", "the result of %s depends on a secondary edge" % self.name, where)

    def finish(self):
        for key, (g, msg, where) in sorted(self.found.items()):
            self.r.bad("%s:%s" % (self.name, key), msg, where)
        self.r.ob(True, "entry:%s" % self.name, "", "")


class SecEdit(Hooks):
    """an edit of a secondary edge changes secondary edges and nothing else"""
    cap, exitcap = 60, 60

    def __init__(self, r, p, name):
        self.r, self.p, self.R, self.name = r, p, p.R, name
        self.n = 0

    def bad(self, what, fr, line):
        self.r.bad("edit:%s:%s" % (self.name, what), "%s %s" % (self.name, what), loc(fr, line))

    def on_write(self, e, st, root, path, val, fr, line):
        R = self.R
        if root.op == "N" and owngraph(root.a[0]):
            self.bad("changes a node when it edits a secondary edge", fr, line)
        elif root.op == "P" and (not path or path[0][3] == R.tree_key) and str(root.a[0]) in self.roots:
            self.bad("changes the tree itself when it edits a secondary edge", fr, line)
        elif root.op == "E" and not path and e.discr(st, e.val(st, val)) == R.v_prim:
            self.bad("writes a primary edge when it edits a secondary edge", fr, line)

    def on_event(self, e, st, name, args, fr, line):
        if name in ("add_node", "remove_node", "graph_other"):
            self.bad("does more than %s a secondary edge" % self.verb, fr, line)
        elif name in ("add_edge", "remove_edge"):
            k = e.discr(st, e.val(st, args["w"]))
            self.n += 1
            verb = name.split("_")[0] + ("s" if name == "add_edge" else "s")
            self.r.ob(k == self.R.v_sec, "edit:%s:%s" % (self.name, name), "%s %s an edge that is not known to be secondary" % (self.name, verb), loc(fr, line))


def sec_arg(p, i):
    def setup(e, st, vals):
        tree = vals[0]
        g = e.load(st, tree.a[0], tree.a[1] + (("f", 0, p.R.t_graph, p.R.tree_key),))
        e.set_discr(st, e.load(st, T("E", g, vals[i]), ()), p.R.v_sec)
    return setup


SECFN = re.compile(r"secondary|PartialEq>::eq$|NegraWriter<")


def reaches(p):
    """bodies from which the incidence lists of a graph are read"""
    rx = re.compile(r"edges_directed|StableGraph.*::(edges|neighbors\w*|externals|find_edge|edge_indices|edge_references|edge_count|contains_edge|remove_edge|add_edge)\b|Dfs|Bfs|Topo")
    hit = set()
    calls = {}
    for k, b in p.bodies.items():
        s = set()
        for bl in b["blocks"]:
            t = bl["t"]
            if t and t[0] == "call":
                txt = str(t[1])
                if rx.search(txt):
                    hit.add(k)
        calls[k] = s
    return hit


def entries(p):
    R = p.R
    out = []
    for k in lib_exports(p):
        b = p.bodies[k]
        ts = [b["T"][t]["s"] for t in list(b["inputs"]) + [b["output"]]]
        if any(re.search(r"\bTree\b|\bClimber\b|NegraReader|PTBReader|TerminalDesc", s) for s in ts) or "Tree" in b["path"]:
            out.append(k)
    return out


QUERIES = [("parent", r"^tree::Tree::parent$", 0), ("children", r"^tree::Tree::children$", 0), ("siblings", r"^tree::Tree::siblings$", 0),
           ("secondary_parent", r"^tree::Tree::secondary_parent$", 1), ("secondary_children", r"^tree::Tree::secondary_children$", 1)]


@check("C06", "edge-kind typestate over MIR: every edge drawn from an incidence list is followed until its kind has been branched on; graph walks and removals are checked against the kind known on the path",
       "other",
       "Every public operation that touches a tree, with everything it calls. Edges whose kind is open or secondary may not reach a result, a change or a caller's closure. "
       "Equality, the NEGRA writer and the queries for secondary edges may use secondary edges, but must have looked at the kind.")
def c06(r):
    p, R = r.p, r.p.R
    r.rule("an edge taken from an incidence list takes part in a result, an edit, a visit or output only on paths where its kind was found to be primary (or secondary, in equality, NEGRA output and queries for secondary edges); "
           "graph walks go through the primary-only view; an edge is removed only with its kind known, and on paths where it is secondary only secondary edges are added and no span or count is written")
    for name, rx, want in QUERIES:
        k = body(p, rx)
        want = R.v_sec if want else R.v_prim
        h = Kinds(r, p, "Tree::" + name, want == R.v_sec)
        e, ex = run(p, k, h)
        c = ctx(e, k)
        n = 0
        for v, st in ex:
            v = e.deep(st, v)
            its = []
            if name.endswith("parent"):
                els = [(x, st) for x in edge_els(v)]
            else:
                w = v
                while w.op == "ref":
                    w = e.val(st, w)
                if w.op in ("it", "cv", "coll"):
                    els = []
                    for x, s, _ in models.draw(c, st.copy(), models.as_it(e, st, w), "q"):
                        if x is not None:
                            x = e.deep(s, x)
                            els += [(y, s) for y in edge_els(x) if y not in list(edge_els(v))]
                else:
                    els = []
            for x, s in els:
                n += 1
                r.ob(h.kind(e, s, x) == want, "query:%s" % name, "%s returns an edge that is not known to be %s" % (h.name, "secondary" if want == R.v_sec else "primary"), p.bodies[k]["path"])
        r.floor("edges returned by " + name, n, 1)
        r.count("query results", n)
    # the view used by graph walks
    for k, b in sorted(p.bodies.items()):
        if b["crate"] == "lumberjack" and re.search(r"IntoNeighbors(Directed)?>::neighbors(_directed)?$", b["path"]):
            h = Kinds(r, p, b["path"])
            e, ex = run(p, k, h)
            c = ctx(e, k)
            n = 0
            for v, st in ex:
                w = e.deep(st, v)
                if w.op not in ("it", "cv", "coll"):
                    continue
                for x, s, _ in models.draw(c, st.copy(), models.as_it(e, st, w), "q"):
                    if x is None:
                        continue
                    for y in edge_els(e.deep(s, x)):
                        n += 1
                        r.ob(h.kind(e, s, y) == R.v_prim, "view", "the view for graph walks follows edges that are not known to be primary", b["path"])
            r.count("view edges", n)
    # edits of secondary edges
    for name, rx, verb, arg in (("Tree::add_secondary_edge", r"^tree::Tree::add_secondary_edge$", "add", None),
                                ("Tree::remove_secondary_edge", r"^tree::Tree::remove_secondary_edge$", "remove", None),
                                ("Tree::reattach_node", r"^tree::Tree::reattach_node$", "move", 2)):
        k = body(p, rx)
        h = SecEdit(r, p, name)
        h.verb, h.roots = verb, {param_name(p.bodies[k], 0)}
        if arg is not None:
            idx = [j for j, t in enumerate(p.bodies[k]["inputs"]) if "EdgeIndex" in p.bodies[k]["T"][t]["s"]]
            if len(idx) != 1:
                raise Anchor("reattach_node takes one edge")
            arg = sec_arg(p, idx[0])
        run(p, k, h, arg)
        r.count("secondary edits", h.n)
        r.ob(h.n > 0, "edit:%s" % name, "%s does not change any edge" % name, p.bodies[k]["path"])
    # everything else
    ks = entries(p)
    for k in ks:
        b = p.bodies[k]
        h = Kinds(r, p, b["path"], bool(SECFN.search(b["path"])))
        e, ex = run(p, k, h)
        if not re.search(r"Tree::(children|siblings|secondary_children)$", b["path"]):
            h.exits(e, ex, b["path"])
        h.finish()
        r.count("operations")
        r.count("drawn", len(h.drawn))
        r.count("removals", len(h.removed))
        r.count("additions", len(h.added))
        r.sample("%s: %d places drawing edges, removed %s, added %s" % (b["path"], len(h.drawn), sorted({str(x) for x, _ in h.removed}), sorted({str(x) for x, _ in h.added})))
    r.floor("operations", r.counts.get("operations", 0), 40)
    r.floor("drawn", r.counts.get("drawn", 0), 30)
    r.floor("removals", r.counts.get("removals", 0), 6)
    r.floor("secondary edits", r.counts.get("secondary edits", 0), 4)
