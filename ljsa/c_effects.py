"""C03 / C17: what operations write to the tree, and when."""
import re
from rt import *
from terms import *
import engine, models
from c_guard import guard_term, param_name
from c_conllx import strip_ver


class Invariants(Hooks):
    """prunes branches that contradict the shape invariants of trees (C14, C02): a node with children is a nonterminal;
    the root exists; a tree found projective has no nonterminal with skipped positions"""
    guard = None

    def __init__(self, r, p):
        self.r, self.p, self.R = r, p, p.R
        self.pruned = 0

    def impossible(self, e, st, t, d):
        R = self.R
        if t.op == "discr":
            v = strip_ver(t.a[0])
            if v.op == "nd" and d == R.v_t and self.is_parent(e, st, v.a[1]):
                return True
            if v.op == "fld" and v.a[2] == R.s_skips and v.a[1] == 0 and d == 1:
                # skips of a node's span
                s = v.a[0]
                if s.op == "fld" and s.a[0].op == "fld" and s.a[0].a[0].op == "nd":
                    nd, var = s.a[0].a[0], s.a[0].a[1]
                    if var == R.v_t:
                        return True
                    if self.guard is not None and e.evalb(st, self.guard) is True:
                        return True
        return False

    def is_parent(self, e, st, i):
        while i.op == "ver":
            i = i.a[1]
        return i.op == "src" or st.facts.get(T("isparent", i)) is True

    def phi_node_facts(self, e, a, b, r, ph, x, y):
        if self.is_parent(e, a, x) and self.is_parent(e, b, y):
            r.facts[T("isparent", ph)] = True

    def on_assume(self, e, st, cond, truth, fr, line):
        if isinstance(cond, Term) and cond.op == "discr" and self.impossible(e, st, cond, truth):
            self.pruned += 1
            return False
        return None


GRAPH = ("add_node", "add_edge", "remove_node", "remove_edge", "graph_other")


class Mutations(Invariants):
    """ghost state: the first change made to the tree on this path"""
    exitcap, cap = 60, 60

    def __init__(self, r, p, root, guard):
        Invariants.__init__(self, r, p)
        self.root = root
        self.guard = guard
        self.sites = set()

    def join_ps(self, a, b):
        return a if a is not None else b

    def ps_key(self, ps):
        return ps is not None

    def mark(self, st, what, fr, line):
        w = (what, loc(fr, line))
        self.sites.add(w)
        if st.ps is None:
            st.ps = w

    def mine(self, e, st, g):
        """is this graph the one of the tree given"""
        return not any(x.op == "fresh" for x in subterms(g)) if isinstance(g, Term) else True

    def on_write(self, e, st, root, path, val, fr, line):
        if root.op in ("N", "E") and (root.a[0].op not in ("fresh", "graph")):
            old = e.load(st, root, path) if False else None
            self.mark(st, "a node or edge is changed", fr, line)
        elif root is self.root:
            self.mark(st, "the tree is changed", fr, line)

    def on_event(self, e, st, name, args, fr, line):
        if name in GRAPH:
            g = args.get("g")
            if isinstance(g, Term) and g.op in ("fresh", "graph"):
                return
            self.mark(st, {"add_node": "a node is added", "add_edge": "an edge is added", "remove_node": "a node is removed",
                           "remove_edge": "an edge is removed"}.get(name, "the graph is changed"), fr, line)


OPS3 = [("remove_node", r"^tree::Tree::remove_node$"), ("insert_unary_below", r"^tree::Tree::insert_unary_below$"),
        ("push_terminal", r"^tree::Tree::push_terminal$"), ("reattach_node", r"^tree::Tree::reattach_node$"),
        ("annotate_absolute", r"Encode>::annotate_absolute$"), ("annotate_relative", r"Encode>::annotate_relative$")]


@check("C03", "effect-before-failure dataflow over MIR: on every path to an Err return the ghost state 'first change to the tree' must be empty",
       "other",
       "Covers the six operations the property names, with everything they call. Assumes the shape invariants other properties establish (a parent is a "
       "nonterminal; a projective tree has no nonterminal with skipped positions). User code passed in (Into<String> conversions) cannot fail.")
def c03(r):
    p = r.p
    r.rule("no path on which a node, edge or field of the tree has been written, added or removed reaches a return whose value may be Err")
    for name, rx in OPS3:
        k = body(p, rx)
        b = p.bodies[k]
        pn = param_name(b, 0)
        eg, outs = guard_term(p, T("sym", pn))
        guard = outs[0][0] if len(outs) == 1 else None
        h = Mutations(r, p, T("P", pn), guard)
        e, ex = run(p, k, h)
        nerr = nok = 0
        for v, st in ex:
            o = is_ok(e, st, v)
            if o is True:
                nok += 1
                continue
            nerr += 1
            w = st.ps
            r.ob(w is None, "%s:%s" % (name, keyify_site(w)), "%s can return an error after %s (%s)" % (name, w[0] if w else "", w[1] if w else ""), w[1] if w else "")
        r.count("operations")
        r.count("error exits", nerr)
        r.count("ok exits", nok)
        r.count("change sites", len(h.sites))
        r.sample("%s: %d error exits, %d ok exits, %d change sites" % (name, nerr, nok, len(h.sites)))
        r.ob(len(h.sites) > 0, "%s:no-change" % name, "%s no longer changes the tree at all" % name, b["path"])
    r.floor("operations", r.counts.get("operations", 0), 6)
    r.floor("error exits", r.counts.get("error exits", 0), 6)


def keyify_site(w):
    if not w:
        return ""
    return re.sub(r"^.*? in ", "", w[1]) + ":" + w[0].replace(" ", "-")


# ------------------------------------------------------------------------------------------------ C17
RESTRUCT = [("filter_nonterminals", r"TreeOps>::filter_nonterminals$"), ("insert_intermediate", r"TreeOps>::insert_intermediate$"),
            ("reattach_terminals", r"TreeOps>::reattach_terminals$"), ("reattach_node", r"^tree::Tree::reattach_node$"),
            ("projectivize", r"Projectivize>::projectivize$"), ("insert_unary_above", r"^tree::Tree::insert_unary_above$"),
            ("insert_unary_below", r"^tree::Tree::insert_unary_below$"), ("remove_node", r"^tree::Tree::remove_node$"),
            ("collapse_unary_chains", r"UnaryChains>::collapse_unary_chains$"), ("restore_unary_chains", r"UnaryChains>::restore_unary_chains$"),
            ("remove_dummy_nodes", r"Decode>::remove_dummy_nodes$"), ("add_secondary_edge", r"^tree::Tree::add_secondary_edge$"),
            ("remove_secondary_edge", r"^tree::Tree::remove_secondary_edge$")]
ANNOT = [("annotate_pos", r"AnnotatePOS>::annotate_pos$", "pos"), ("annotate_parent_tag", r"TreeOps>::annotate_parent_tag$", "feat"),
         ("project_tag_set", r"^tree::Tree::project_tag_set$", "feat"), ("project_ids", r"^tree::Tree::project_ids$", "feat"),
         ("annotate_absolute", r"Encode>::annotate_absolute$", "feat"), ("annotate_relative", r"Encode>::annotate_relative$", "feat")]


OLD = ("sym", "nd", "ed", "fld", "ver", "src", "tgt", "N", "E")


def same(e, st, old, new):
    """is the value written the value that was there"""
    old, new = e.deep(st, old), e.deep(st, new)
    if old is new:
        return True
    return e.evalb(st, ieq(old, new)) is True


def owngraph(g):
    return isinstance(g, Term) and g.op not in ("fresh", "graph")


class Frame(Invariants):
    """every change made to the tree passed in, with the kind of node changed; judged against what the operation may change"""
    exitcap, cap = 60, 60

    def __init__(self, r, p, root, name, restruct, fields, feats, key):
        Invariants.__init__(self, r, p)
        self.root, self.name = root, name
        self.restruct = restruct          # may change nodes (nonterminals only), edges, the root, spans of nonterminals
        self.fields = fields              # fields of terminals the operation may change
        self.feats = feats                # may change features
        self.key = key                    # the only feature it may set, or None
        R = self.R
        self.tn = {R.t_form: "form", R.t_pos: "part-of-speech tag", R.t_lemma: "lemma", R.t_span: "position", R.t_feat: "features"}
        self.seen = 0
        self.und = 0
        self.sites = set()

    def bad(self, what, fr, line):
        self.r.ob(False, "%s:%s" % (self.name, what.replace(" ", "-")), "%s %s" % (self.name, what), loc(fr, line))

    def ok(self, fr, line):
        self.r.ob(True, "", "", "")

    def note(self, fr, line):
        self.seen += 1
        self.sites.add(loc(fr, line))

    def on_write(self, e, st, root, path, val, fr, line):
        R = self.R
        if root is self.root:
            self.note(fr, line)
            if not path:
                return self.bad("replaces the whole tree", fr, line)
            f = path[0][2]
            if f == R.t_graph and len(path) == 1:
                return self.bad("replaces the whole graph", fr, line)
            old = e.load(st, root, path)
            if same(e, st, old, val):
                return self.ok(fr, line)
            if f == R.t_n:
                return self.bad("changes the number of terminals", fr, line)
            if not self.restruct:
                return self.bad("changes the %s of the tree" % {R.t_root: "root", R.t_disc: "discontinuity count"}.get(f, "graph"), fr, line)
            return self.ok(fr, line)
        if root.op == "E" and owngraph(root.a[0]):
            self.note(fr, line)
            if not self.restruct:
                self.bad("changes an edge", fr, line)
            else:
                self.ok(fr, line)
        if root.op == "N" and owngraph(root.a[0]):
            if root.a[1].op == "fresh" and str(root.a[1].a[-1]).endswith("newnode"):
                return
            self.note(fr, line)
            if not path:
                return self.whole(e, st, root, val, fr, line)
            var = path[0][1]
            if len(path) == 1:
                # the whole terminal or nonterminal
                self.parts(e, st, root, path, val, fr, line)
                return
            self.fieldw(e, st, root, path, var, path[1][2], val, fr, line)

    def whole(self, e, st, root, val, fr, line):
        d = e.discr(st, val)
        o = e.discr(st, T("nd", root.a[0], root.a[1]))
        if d is None or o is None:
            self.und += 1
            return
        if d != o:
            return self.bad("turns a node into another kind of node", fr, line)
        if val.op == "agg":
            self.parts(e, st, root, (("f", d, 0, self.R.node_key),), val.a[2][0], fr, line)
        else:
            self.und += 1

    def parts(self, e, st, root, path, val, fr, line):
        var = path[0][1]
        if val.op != "agg":
            self.und += 1
            return
        key = self.R.nt_key if var == self.R.v_nt else self.R.t_key
        for i, x in enumerate(val.a[2]):
            self.fieldw(e, st, root, path + (("f", 0, i, key),), var, i, x, fr, line)

    def fieldw(self, e, st, root, path, var, f, val, fr, line):
        R = self.R
        if same(e, st, e.load(st, root, path), val):
            return self.ok(fr, line)
        if var == R.v_t:
            if f == R.t_feat:
                if not self.feats:
                    return self.bad("changes the features of a terminal", fr, line)
                return self.feat(e, st, root, path, val, fr, line)
            if f in self.fields:
                return self.ok(fr, line)
            return self.bad("changes the %s of a terminal" % self.tn.get(f, "content"), fr, line)
        if not self.restruct:
            return self.bad("changes a nonterminal", fr, line)
        if f == R.nt_label:
            return self.bad("changes the label of a nonterminal", fr, line)
        if f == R.nt_feat:
            if not self.feats:
                return self.bad("changes the features of a nonterminal", fr, line)
            return self.feat(e, st, root, path, val, fr, line)
        return self.ok(fr, line)

    def feat(self, e, st, root, path, val, fr, line):
        """features are only ever created where there were none, otherwise changed key by key"""
        if len(path) == 2:
            d = e.discr(st, e.load(st, root, path))
            n = e.discr(st, val)
            if d == 1 or n == 0 and d != 0:
                return self.bad("replaces the features a node already had", fr, line)
            if d is None:
                old = e.load(st, root, path)
                if n == 1 and old.op == "fld" and not e.deep(st, val).atoms & old.atoms:
                    # whatever the node had is not part of what it gets
                    return self.bad("replaces the features a node already had", fr, line)
                self.und += 1
                return
        self.ok(fr, line)

    def on_event(self, e, st, name, args, fr, line):
        R = self.R
        if name in GRAPH:
            g = args.get("g")
            if not owngraph(g):
                return
            self.note(fr, line)
            what = {"add_node": "adds a node", "remove_node": "removes a node", "add_edge": "adds an edge", "remove_edge": "removes an edge"}.get(name)
            if not self.restruct:
                return self.bad(what or "changes the graph", fr, line)
            k = None
            if name == "add_node":
                k = e.discr(st, args["w"])
            elif name == "remove_node":
                k = e.discr(st, T("nd", g, args["idx"]))
            elif name == "graph_other":
                if re.search(r"clear$|retain_nodes", str(args.get("name"))):
                    return self.bad("discards nodes wholesale", fr, line)
                self.und += 1
                return
            else:
                return self.ok(fr, line)
            if k is None:
                self.und += 1
            elif k == R.v_t:
                self.bad(what.replace("node", "terminal"), fr, line)
            else:
                self.ok(fr, line)
        elif name == "minsert" and args.get("root") is not None and args["root"].op == "N" and owngraph(args["root"].a[0]) and self.key is not None:
            k = args["k"]
            want = self.key
            if not any(t is want or t.op == "str" and want.op == "str" for t in (k,)):
                k2 = e.deep(st, k)
                good = want in list(subterms(k2))
                if want.op == "sym" and k2.op == "str":
                    return self.bad("sets the feature %s" % k2.a[0], fr, line)
                if not good:
                    self.und += 1
                    return
            elif k is not want:
                return self.bad("sets the feature %s" % k.a[0], fr, line)
            self.ok(fr, line)


RAW = re.compile(r"\*(?:mut|const) ")


@check("C17", "frame-condition effect analysis over MIR (abstract interpretation collecting every write with the kind of node written) and a type walk for shared mutability",
       "other",
       "Covers every public restructuring and annotation operation with everything they call, one call at a time; user closures receive &Tree and therefore "
       "cannot write. For readers of a &Tree the compiler's own borrow rules decide, provided nothing reachable from Tree has interior mutability and no "
       "raw pointer is formed, which is what is checked.")
def c17(r):
    p = r.p
    R = p.R
    r.rule("restructuring operations never write a terminal's form, tag, lemma or position, never write a label of an existing nonterminal, never add or remove terminals, and only the unary chain operations touch features; "
           "annotation operations write only the field they are documented to write, on terminals, and never add, remove or rewrite nodes, edges, spans, root or counts; "
           "nothing reachable from a shared reference to a tree can be written")
    und = 0
    for name, rx in RESTRUCT:
        k = body(p, rx)
        b = p.bodies[k]
        pn = param_name(b, 0)
        chains = "unary_chains" in name
        h = Frame(r, p, T("P", pn), name, True, (), chains, T("str", "unary_chain") if chains else None)
        setup = None
        if name == "remove_node":
            setup = nt_arg(p, 1)
        e, ex = run(p, k, h, setup)
        tally(r, name, h, ex)
        und += h.und
    for name, rx, what in ANNOT:
        k = body(p, rx)
        b = p.bodies[k]
        pn = param_name(b, 0)
        i = [j for j, t in enumerate(b["inputs"]) if b["T"][t]["s"] == "&str"]
        key = T("sym", param_name(b, i[0])) if len(i) == 1 else None
        h = Frame(r, p, T("P", pn), name, False, (R.t_pos,) if what == "pos" else (), what == "feat", key)
        e, ex = run(p, k, h)
        tally(r, name, h, ex)
        und += h.und
    r.count("undecided", und)
    # shared references
    seen = set()
    work = [R.tree_key]
    while work:
        k = work.pop()
        if k in seen or k not in p.adts or not p.adts[k].get("local"):
            continue
        seen.add(k)
        a = p.adts[k]
        for v in a["variants"]:
            for f in v["f"]:
                s = a["T"][f["ty"]]["s"]
                r.ob(not re.search(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w+|OnceCell|LazyCell|OnceLock)\b", s) and not RAW.search(s), "shared:%s.%s" % (a["path"], f["n"]),
                     "field %s of %s can be changed through a shared reference (%s)" % (f["n"], a["path"], s), a["file"])
                r.count("field types walked")
                for x in adts_in(a["T"], f["ty"]):
                    work.append(x)
    n = 0
    for k, b in p.bodies.items():
        if b["crate"] != "lumberjack":
            continue
        n += 1
        raw = sorted({b["T"][l]["s"] for l in b["locals"] if isinstance(l, int) and RAW.match(b["T"][l]["s"])})
        raw = [s for s in raw if any(x in seen for x in [R.tree_key]) and re.match(r"\*(?:mut|const) (?:[\w:]*::)?(Tree|Node|NonTerminal|Terminal|Edge|Span|Features|StableGraph|Graph|String|usize)\b", s)]
        r.ob(not raw, "raw:%s" % b["path"], "%s forms a raw pointer %s" % (b["path"], ", ".join(raw)), "%s:%s" % (b["file"], b["line"]))
    r.count("bodies scanned for raw pointers", n)
    r.floor("operations", r.counts.get("operations", 0), 19)
    r.floor("change sites", r.counts.get("change sites", 0), 30)
    r.floor("bodies scanned for raw pointers", n, 150)


def adts_in(TT, t, d=0):
    t = TT[t]
    if t.get("key"):
        yield t["key"]
    if d < 6:
        for x in list(t.get("args", []) or []) + ([t["to"]] if isinstance(t.get("to"), int) else []):
            if isinstance(x, int):
                for y in adts_in(TT, x, d + 1):
                    yield y


def nt_arg(p, i):
    def setup(e, st, vals):
        tree = vals[0]
        g = e.load(st, tree.a[0], tree.a[1] + (("f", 0, p.R.t_graph, p.R.tree_key),))
        e.set_discr(st, T("nd", g, vals[i]), p.R.v_nt)
    return setup


def tally(r, name, h, ex):
    r.count("operations")
    r.count("change sites", len(h.sites))
    r.count("changes judged", h.seen)
    r.sample("%s: %d change sites, %d changes judged, %d exits, %d undecided" % (name, len(h.sites), h.seen, len(ex), h.und))
    r.ob(len(h.sites) > 0, "%s:no-change" % name, "%s does not change the tree at all" % name, "")
