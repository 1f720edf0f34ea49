"""C20: NEGRA columns are separated and in the order the reader expects."""
import re
from rt import *
from terms import *
import engine, models


# ------------------------------------------------------------------ writer
# the line being written, as an automaton state:
# (kind, complete columns, atoms of the current column, may the current column already have ended, node, edge, secondary edge)
START = (None, 0, (), False, None, None, None)


class Lines(Hooks):
    blank_norm = True
    exitcap = 400
    cap = 600

    def __init__(self, p, aut):
        self.p = p
        self.aut = aut
        self.writes = 0

    def on_event(self, e, st, name, args, fr, line):
        if name != "write" or not args["ok"]:
            return
        self.writes += 1
        st.ps = self.aut.feed(e, st, st.ps or START, flat(e, st, e.deep(st, args["v"])), loc(fr, line))

    def ps_atoms(self, ps):
        return [x for x in (ps or ())[4:] if x is not None] + [t for k, t in (ps or START)[2] if k == "val"]

    def ps_subst(self, ps, f):
        if not ps:
            return ps
        return ps[:2] + (tuple((k, f(t) if k == "val" else t) for k, t in ps[2]),) + ps[3:4] + tuple(x if x is None else f(x) for x in ps[4:])

    def join_ps(self, a, b):
        return a


def flat(e, st, t):
    """a text term as a list of ("lit", s) / ("val", term) / ("gap", term)"""
    t = e.val(st, t)
    if t.op == "str":
        return [("lit", t.a[0])]
    if t.op == "char":
        return [("lit", str(t.a[0]))]
    if t.op == "blank":
        return [("lit", " ")]
    if t.op == "cat":
        out = []
        for x in t.a:
            out.extend(flat(e, st, x))
        return out
    if t.op == "joined" and t.a[0].op == "str":
        it = t.a[1]
        cv = it.a[1] if it.op == "it" and it.a[0] == "cv" else None
        return [("val", t)]
    if t.op == "padded":
        return flat(e, st, t.a[0]) + [("gap", t)]
    if t.op == "rep":
        if all(x.op == "str" and not x.a[0].strip() for x in t.a[1:]):
            return [("gap", t)]
    if t.op == "star" and all(x.op == "str" and not x.a[0].strip() or x.op == "rep" and all(y.op == "str" and not y.a[0].strip() for y in x.a[1:]) for x in t.a):
        return [("gap", t)]
    if t.op == "app" and t.a[0] in ("String::as_bytes", "str::as_bytes", "String::into_bytes"):
        return flat(e, st, t.a[1])
    if t.op == "disp":
        return [("val", t.a[-1])]
    return [("val", t)]


class Kind(object):
    def __init__(self, p):
        self.p = p
        R = p.R
        self.R = R

    def of(self, e, st, t):
        """(class, node/edge/key) of a text value taken from the tree"""
        R = self.R
        o = t.op
        if o == "fld":
            b = t.a[0]
            # Some payload
            if (t.a[1], t.a[2]) == (1, 0) and b.op in ("fld", "mget"):
                c = self.of(e, st, b)
                return c
            if b.op == "fld" and b.a[0].op == "nd":
                idx = b.a[0].a[1]
                if b.a[1] == R.v_t:
                    n = {R.t_form: "form", R.t_lemma: "lemma", R.t_pos: "pos"}.get(t.a[2])
                    if n:
                        return n, idx
                if b.a[1] == R.v_nt and t.a[2] == R.nt_label:
                    return "label", idx
            if b.op == "ed":
                return "edge", b.a[1]
            if b.op == "fld" and b.a[0].op == "ed":
                return "edge", b.a[0].a[1]
        if o == "mget":
            key = t.a[1]
            if key.op == "str":
                nds = [x for x in subterms(t.a[0]) if x.op == "nd"]
                if len(nds) == 1:
                    return "feat:" + key.a[0], nds[0].a[1]
                return "feat:" + key.a[0], None
            return "id", key
        if o == "ver":
            return self.of(e, st, t.a[1])
        return "other", None


class Automaton(object):
    def __init__(self, r, p):
        self.r, self.p = r, p
        self.R = p.R
        self.K = Kind(p)
        self.seen = {}
        self.lines = {"terminal": 0, "nonterminal": 0, "bos": 0, "eos": 0, "empty": 0, "imprecise": 0}
        self.memo = {}

    def feed(self, e, st, ps, atoms, where):
        kind, n, cur, maybe, node, eg, e2 = ps
        for k, t in atoms:
            if kind == "imprecise":
                if k == "lit" and "\n" in t:
                    kind, n, cur, maybe, node, eg, e2 = START
                    t = t.rsplit("\n", 1)[1]
                    if not t:
                        continue
                else:
                    continue
            if k == "lit":
                for s in re.split(r"([ \t]+|\n)", t):
                    if s == "":
                        continue
                    if s == "\n" or not s.strip(" \t"):
                        if cur:
                            kind, node, eg, e2 = self.column(e, st, kind, n, cur, node, eg, e2, where)
                            n, cur = n + 1, ()
                        maybe = False
                        if s == "\n":
                            self.line(kind, n, where)
                            kind, n, cur, maybe, node, eg, e2 = START
                        continue
                    if cur and maybe:
                        self.glue(e, st, kind, n, cur, where)
                        kind, node, eg, e2 = self.column(e, st, kind, n, cur, node, eg, e2, where)
                        n, cur, maybe = n + 1, (), False
                    if cur and cur[-1][0] == "lit":
                        cur = cur[:-1] + (("lit", cur[-1][1] + s),)
                    else:
                        cur = cur + (("lit", s),)
            elif k == "gap":
                maybe = bool(cur)
            else:
                if t.op == "any" or t.op == "star" and any(x.op == "str" and x.a[0].split() != [x.a[0]] or x.op in ("star", "any") for x in t.a):
                    kind = "imprecise"
                    self.lines["imprecise"] += 1
                    cur = ()
                    continue
                if cur and maybe:
                    self.glue(e, st, kind, n, cur, where)
                    kind, node, eg, e2 = self.column(e, st, kind, n, cur, node, eg, e2, where)
                    n, cur, maybe = n + 1, (), False
                cur = cur + (("val", t),)
        r = (kind, n, cur, maybe, node, eg, e2)
        return None if r == START else r

    def ob(self, good, key, msg, where=""):
        return self.r.ob(good, "writer:" + key, msg, where)

    def cls(self, e, st, cur):
        return [a if a[0] == "lit" else self.K.of(e, st, a[1]) for a in cur]

    def glue(self, e, st, kind, n, cur, where):
        c = self.cls(e, st, cur)[-1]
        self.ob(False, "glue:%s:%s" % (kind or "first", n), "columns %d and %d of a NEGRA line can be written without a blank between them (after %s)" % (n + 1, n + 2, cl_str([[c]])), where)

    def hit(self, what):
        self.seen[what] = self.seen.get(what, 0) + 1

    def line(self, kind, n, where):
        if kind is None:
            self.lines["empty"] += 1
            return
        self.lines[kind] += 1
        if kind == "bos":
            self.ob(n >= 2, "bos", "the #BOS line has no sentence number in a column of its own", where)
        elif kind == "eos":
            self.ob(n == 2, "eos", "the #EOS line is not '#EOS' followed by the sentence number in a column of its own", where)
        else:
            self.ob(n in (6, 8), "%s:count" % kind, "a %s line has %d columns instead of 6, or 8 with a secondary edge" % (kind, n), where)
            if n == 8:
                self.hit("sec line")

    def column(self, e, st, kind, n, cur, node, eg, e2, where):
        R = self.R
        c = self.cls(e, st, cur)
        lit = c[0][1] if c[0][0] == "lit" else None
        ob = self.ob

        def bad(what, msg):
            ob(False, "%s:%s" % (kind, what), "column %d of a %s line %s: %s" % (n + 1, kind, msg, cl_str([c])), where)

        same = lambda a, b: a is None or b is None or e.same(st, a, b)
        if n == 0:
            if lit is not None and lit.startswith("#BOS"):
                kind = "bos"
                ob(len(c) == 1 and lit == "#BOS", "bos", "the #BOS line is not '#BOS' followed by the sentence number in a column of its own: %s" % cl_str([c]), where)
            elif lit is not None and lit.startswith("#EOS"):
                kind = "eos"
                ob(len(c) == 1 and lit == "#EOS", "eos", "the #EOS line is not '#EOS' followed by the sentence number in a column of its own: %s" % cl_str([c]), where)
            elif lit is not None and lit.startswith("#"):
                kind = "nonterminal"
                if len(c) == 2 and lit == "#" and c[1][0] in ("id", "other"):
                    node = c[1][1]
                    self.hit("self")
                    ob(True, "", "")
                else:
                    bad("id", "is not '#' and the number of the node")
            else:
                kind = "terminal"
                if len(c) == 1 and c[0][0] == "form":
                    node = c[0][1]
                    self.hit("form")
                    ob(True, "", "")
                else:
                    bad("form", "is not the form")
            return kind, node, eg, e2
        if kind in ("bos", "eos"):
            if n == 1:
                ob(len(c) == 1, kind + ":id", "the sentence number on the #%s line can run into the text after it" % kind.upper(), where)
            return kind, node, eg, e2
        ph = c == [("lit", "--")]
        one = len(c) == 1

        def opt(cls, what):
            if ph:
                self.hit(what + " --")
                ob(True, "", "")
            elif one and c[0][0] == cls and same(c[0][1], node):
                self.hit(what)
                ob(True, "", "")
            else:
                bad(what, "is neither the %s of that node nor '--'" % what)

        if n == 1:
            if kind == "terminal":
                opt("lemma", "lemma")
            elif not ph:
                bad("lemma", "is not '--'")
        elif n == 2:
            if kind == "terminal":
                if one and c[0][0] == "pos" and same(c[0][1], node):
                    self.hit("tag")
                    ob(True, "", "")
                else:
                    bad("tag", "is not the part-of-speech tag of the word in column 1")
            else:
                good = c[0][0] == "label" and same(c[0][1], node)
                if good:
                    node = c[0][1]
                    self.hit("label")
                    if not one:
                        good = len(c) == 3 and c[1] == ("lit", "=") and c[2][0] == "feat:node_annotation" and same(c[2][1], node)
                        if good:
                            self.hit("annotation")
                if good:
                    ob(True, "", "")
                else:
                    bad("label", "is not label[=annotation] of the node in column 1")
        elif n == 3:
            if kind == "terminal":
                opt("feat:morph", "morph")
            elif not ph:
                bad("morph", "is not '--'")
        elif n in (4, 6):
            what = "edge" if n == 4 else "secondary edge"
            if ph:
                self.hit(what + " --")
                ob(True, "", "")
            else:
                good = one and c[0][0] == "edge"
                x = c[0][1] if good else None
                if x is not None:
                    good = (node is None or is_incoming(x, node)) and e.discr(st, T("ed", R_graph(self.p), x)) in (None, e.discr_of_variant(R.edge_key, R.v_prim if n == 4 else R.v_sec))
                    if n == 4:
                        eg = x
                    else:
                        e2 = x
                if good:
                    self.hit(what)
                    ob(True, "", "")
                else:
                    bad(what, "is not the label of the %s edge to its parent" % ("primary" if n == 4 else "secondary"))
        elif n in (5, 7):
            x = eg if n == 5 else e2
            good = one and c[0][0] in ("id", "other")
            if good and c[0][0] == "id" and c[0][1].op == "src":
                y = c[0][1].a[1]
                if x is not None:
                    good = y is x
                else:
                    good = node is None or is_incoming(y, node)
                good = good and e.discr(st, T("ed", R_graph(self.p), y)) in (None, e.discr_of_variant(R.edge_key, R.v_prim if n == 5 else R.v_sec))
            elif good and c[0][0] == "id":
                good = False
            if good:
                self.hit("parent" if n == 5 else "secondary parent")
                ob(True, "", "")
            else:
                bad("parent" if n == 5 else "secparent", "is not the number of the %s parent of that node" % ("primary" if n == 5 else "secondary"))
        return kind, node, eg, e2


def is_incoming(eg, node):
    """the edge term is drawn from the incoming edges of the node"""
    for x in subterms(eg):
        if x.op == "it" and x.a[0] in ("edges", "edgeidx") and x.a[2] is node and x.a[3] == 1:
            return True
    return False


def writer(r, p):
    aut = Automaton(r, p)
    k = body(p, r"^<io::negra::NegraWriter<.*> as io::WriteTree>::write_tree$")
    h = Lines(p, aut)
    e, exits = run(p, k, h)
    for v, s in exits:
        if is_ok(e, s, v):
            r.ob(s.ps is None or s.ps[0] == "imprecise", "writer:unterminated", "a NEGRA line is not terminated", "")
    r.count("write_events", h.writes)
    r.count("writer_lines_imprecise", aut.lines["imprecise"])
    if not aut.lines["imprecise"]:
        for n in ("form", "lemma", "lemma --", "tag", "morph", "morph --", "self", "label", "annotation", "edge", "edge --", "parent", "secondary edge", "secondary edge --", "secondary parent"):
            r.ob(aut.seen.get(n, 0) > 0, "writer:never:" + n, "no line ever carries %s" % n, p.bodies[k]["file"])
        for n in ("terminal", "nonterminal", "bos", "eos"):
            r.floor("writer_lines_" + n, aut.lines[n], 1)
    r.sample("writer columns seen: %s" % aut.seen)


def R_graph(p):
    return T("fld", T("sym", "tree"), 0, p.R.t_graph)


def cl_str(cl):
    out = []
    for c in cl:
        out.append("+".join(x[1] if x[0] == "lit" else x[0] + ("(%s)" % show(x[1])[:40] if x[1] is not None else "") for x in c))
    return " | ".join(out)[:400]


# ------------------------------------------------------------------ reader
def col(x):
    """index of the blank-separated column of a line"""
    if x.op == "piece" and x.a[0] == "ws" and isinstance(x.a[3], int):
        return x.a[3]
    return None


class Reader(Hooks):
    def __init__(self, p, r):
        self.p, self.r = p, r
        self.n = {}
        self.guard = {}    # skeleton of a pushed label -> guarded?

    def opt(self, e, st, v, i, what, where, deferred=False):
        r = self.r
        d = e.discr(st, v)
        if d == 1:
            x = e.val(st, e.proj(v, ("f", 1, 0)))
            c = col(x)
            r.ob(c == i, "reader:%s:column" % what, "the %s is read from column %s instead of column %d" % (what, c if c is None else c + 1, i + 1), where)
            t = e.evalb(st, eqv(x, T("str", "--")))
            if t is not False and deferred:
                t = False if self.guard.get(models.skeleton(x)) is True else t
            r.ob(t is False, "reader:%s:placeholder" % what, "the placeholder '--' in the %s column is not read as absent" % what, where)
            self.n[what] = self.n.get(what, 0) + 1
        elif d == 0:
            self.n[what + " absent"] = self.n.get(what + " absent", 0) + 1

    def on_event(self, e, st, name, args, fr, line):
        R, p, r = self.p.R, self.p, self.r
        if name == "push":
            x = e.deep(st, args["x"]) if isinstance(args.get("x"), Term) else None
            if x is not None and x.op in ("tup", "agg"):
                for y in (x.a[0] if x.op == "tup" else x.a[2]):
                    if isinstance(y, Term) and y.op == "agg" and y.a[0] == OPT and y.a[1] == 1:
                        z = e.val(st, y.a[2][0])
                        if col(z) is not None:
                            g = e.evalb(st, eqv(z, T("str", "--"))) is False
                            k = models.skeleton(z)
                            self.guard[k] = self.guard.get(k, True) and g
        if name == "add_node":
            w = e.deep(st, args["w"])
            if w.op == "agg" and w.a[1] == R.v_t:
                t = e.val(st, w.a[2][0])
                where = loc(fr, line)
                g = lambda i: e.val(st, e.proj(t, ("f", 0, i)))
                self.n["form"] = self.n.get("form", 0) + 1
                r.ob(col(g(R.t_form)) == 0, "reader:form:column", "the form is not read from column 1", where)
                r.ob(col(g(R.t_pos)) == 2, "reader:tag:column", "the part-of-speech tag is not read from column 3", where)
                self.opt(e, st, g(R.t_lemma), 1, "lemma", where)
        if name == "minsert":
            k = args.get("k")
            k = e.val(st, k) if isinstance(k, Term) else None
            if k is not None and k.op == "str":
                v = e.deep(st, args["v"]) if isinstance(args.get("v"), Term) else None
                if k.a[0] == "morph" and v is not None:
                    self.opt(e, st, v, 3, "morph", loc(fr, line))
                if k.a[0] == "node_annotation" and v is not None and e.discr(st, v) == 1:
                    x = e.val(st, e.proj(v, ("f", 1, 0)))
                    self.n["annotation"] = self.n.get("annotation", 0) + 1
                    r.ob(self.part(x, 1), "reader:annotation:column", "the annotation is not read from column 3 behind '=': %s" % show(x)[:200], loc(fr, line))
        if name == "add_edge":
            w = e.deep(st, args["w"])
            where = loc(fr, line)
            if w.op == "agg":
                lab = e.val(st, w.a[2][0])
                src = e.deep(st, args["src"])
                if w.a[1] == R.v_prim:
                    self.opt(e, st, lab, 4, "edge", where)
                    ps = [x for x in subterms(src) if x.op == "parse"]
                    if ps:
                        self.n["parent"] = self.n.get("parent", 0) + 1
                        r.ob(all(col(x.a[0]) == 5 for x in ps), "reader:parent:column", "the parent number is not read from column 6", where)
                else:
                    self.opt(e, st, lab, 6, "secondary", where, True)
                    ps = [x for x in subterms(src) if x.op == "parse"]
                    self.n["secparent"] = self.n.get("secparent", 0) + bool(ps)
                    r.ob(bool(ps) and all(col(x.a[0]) == 7 for x in ps), "reader:secparent:column", "the secondary parent number is not read from column 8", where)

    def part(self, x, i):
        """x is the i-th part of column 3 split at the first/each '='"""
        if x.op == "piece" and x.a[0] in ("split", "splitn", "str::split_once", "split_once") and col(x.a[1]) == 2:
            pat = x.a[2]
            return isinstance(pat, Term) and pat.op in ("str", "char") and pat.a[0] == "=" and (x.a[3] == i)
        if x.op == "substr" and col(x.a[0]) == 2:
            return True
        return False

    def on_write(self, e, st, root, path, val, fr, line):
        R = self.p.R
        if root.op == "N" and len(path) == 2 and path[0][1] == R.v_nt and path[1][2] == R.nt_label:
            x = e.val(st, val)
            if "substr" in x.op or x.op == "piece":
                self.n["label"] = self.n.get("label", 0) + 1
                ok_ = self.part(x, 0) or col(x) == 2
                self.r.ob(ok_, "reader:label:column", "the label of a nonterminal is not read from column 3 before '=': %s" % show(x)[:200], loc(fr, line))


@check("C20", "abstract interpretation of the text written per line (typed MIR) with a column automaton; column provenance of every value the reader stores", "other",
       "Values are assumed to contain no blanks themselves (a value with a blank cannot be represented in this format).")
def c20(r):
    p = r.p
    r.rule("Every line NegraWriter can write splits into the prescribed columns, each value being the attribute of the node of that line, with provably at least one blank between neighbours on every path (padding shown non-empty under the path's length facts)")
    r.rule("NegraReader takes each attribute from the column the writer puts it in, and the placeholder '--' becomes absent in lemma, morphology, edge and secondary edge columns")
    writer(r, p)
    k = body(p, r"^<io::negra::NegraReader<.*> as core::iter.*Iterator>::next$")
    h = Reader(p, r)
    run(p, k, h)
    for n in ("form", "lemma", "lemma absent", "morph", "edge", "edge absent", "parent", "secondary", "secondary absent", "secparent", "label", "annotation"):
        r.floor("reader_" + n.replace(" ", "_"), h.n.get(n, 0), 1)
