"""C07: whenever words or constituents meet something ordered, they are taken in order of position."""
import re
from rt import *
from terms import *
import engine, models
from c_guard import param_name
from c_conllx import strip_ver, ctx

POS, REV, UNS, SAME, UNK = "position order", "reversed position order", "no particular order", "given order", None
PASS1 = ("map", "filter", "filter_map", "inspect", "take_while", "skip_while", "map_while", "enum", "same", "skip", "take", "step", "peek", "cloned", "cvref")


def els(t, out=None, deep=False):
    """draws a value is made of: fresh atoms of the outermost drawn elements"""
    out = [] if out is None else out
    if isinstance(t, tuple):
        for x in t:
            els(x, out, deep)
    elif isinstance(t, Term):
        if t.op == "el":
            out.append(t)
            if deep:
                els(t.a[0], out, deep)
            return out
        if not t.atoms and "hole" not in str(t)[:0]:
            pass
        for x in t.a:
            els(x, out, deep)
    return out


class Orders(Hooks):
    exitcap, cap = 60, 60

    def __init__(self, r, p):
        self.r, self.p, self.R = r, p, p.R
        self.cls = {}          # fresh atom of a draw -> set of orders it was drawn in
        self.pushed = {}       # (collection element skeleton) -> orders
        self.memo = {}
        self.busy = 0
        self.found = {}

    # -- order of a sequence
    def order(self, e, st, it, c):
        if it.op == "it":
            k = it.a[0]
            if k == "cv":
                return self.order(e, st, it.a[1], c)
            if k in PASS1:
                return self.order(e, st, it.a[1], c)
            if k == "rev":
                o = self.order(e, st, it.a[1], c)
                return {POS: REV, REV: POS, UNS: UNS}.get(o, UNK)
            if k == "zip":
                a, b = self.order(e, st, it.a[1], c), self.order(e, st, it.a[2], c)
                return a if a in (POS, REV, UNS) else b
            if k in ("nodes", "neigh", "edgeidx"):
                return UNS
            if k == "edges":
                return UNS if it.a[3] == 0 else UNK
            return UNK
        if it.op == "cv":
            src, o = it.a
            kind = o.a[0] if o.op == "ord" else None
            if kind in ("insertion", "iter"):
                if src.op == "coll":
                    return self.order(e, st, src.a[-1], c)
                if src.op == "elems":
                    os = set()
                    for x in src.a:
                        if x.op == "drawn":
                            os.add(self.order(e, st, T("cv", x.a[0], models.NAT), c))
                        else:
                            os |= self.pushed.get(x, set())
                    os.discard(UNK)
                    if len(os) == 1:
                        return os.pop()
                    return UNS if UNS in os else UNK
                return UNK
            if kind in ("cmp", "key", "natural"):
                return self.judge(e, st, it, c)
            if kind == "rev" and len(o.a) > 1:
                v = self.order(e, st, T("cv", src, o.a[1]), c)
                return {POS: REV, REV: POS, UNS: UNS}.get(v, UNK)
            return UNK
        if it.op == "coll":
            return self.order(e, st, it.a[-1], c)
        return UNK

    def judge(self, e, st, cv, c):
        """what a sorted collection is sorted by: evaluate its comparator on two elements, the first of which starts before the second"""
        key = (cv, frozenset())
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = UNK
        self.busy += 1
        h, e.h = e.h, self
        try:
            self.memo[key] = self._judge(e, st, cv, c)
        finally:
            self.busy -= 1
            e.h = h
        return self.memo[key]

    def _judge(self, e, st, cv, c):
        verdicts = set()
        n = 0
        s0 = st.copy()
        npins = len(e.pins)
        try:
            for x1, s1 in models.draw_cv(c, s0, T("cv", cv.a[0], models.NAT), "ord1"):
                for x2, s2 in models.draw_cv(c, s1.copy(), T("cv", cv.a[0], models.NAT), "ord2"):
                    e.pins.extend([x1, x2])
                    for s in self.before(e, s2, x1, x2):
                        n += 1
                        verdicts |= self.compare(e, s, cv, x1, x2, c)
                        if n > 12:
                            break
                    del e.pins[npins:]
        finally:
            del e.pins[npins:]
        if not n:
            return UNK
        if verdicts == {-1}:
            return POS
        if verdicts == {1}:
            return REV
        if None in verdicts:
            return UNK
        return UNS

    def starts(self, e, st, x):
        """terms for the first position of the nodes an element is about"""
        R = self.R
        out = []
        for t in subterms(x):
            if t.op == "fld" and t.a[1] == 0 and t.a[2] == R.s_start:
                b = strip_ver(t.a[0])
                if b.op == "fld" and b.a[2] in (R.t_span, R.nt_span):
                    out.append(t)
        return out

    def node(self, e, x):
        xs = x.a[0] if x.op == "tup" else (x,)
        for y in xs:
            if y.op in ("el", "tgt", "src") and y.atoms:
                return y
        return None

    def before(self, e, st, x1, x2):
        """states in which the first element starts before the second"""
        R = self.R
        n1, n2 = self.node(e, x1), self.node(e, x2)
        out = []
        if n1 is None or n2 is None:
            a, b = self.starts(e, st, x1), self.starts(e, st, x2)
            if not a or not b:
                return []
            s = st.copy()
            for u in a:
                for v in b:
                    if not e.assume1(s, lt(u, v), True):
                        return []
            return [s]
        g = self.graph(x1, n1)
        if g is None:
            return []
        for k1 in (R.v_t, R.v_nt):
            for k2 in (R.v_t, R.v_nt):
                s = st.copy()
                if not (e.set_discr(s, T("nd", g, n1), k1) and e.set_discr(s, T("nd", g, n2), k2)):
                    continue
                a = [self.start(e, s, g, n1, k1)] + self.starts(e, s, x1)
                b = [self.start(e, s, g, n2, k2)] + self.starts(e, s, x2)
                if all(e.assume1(s, lt(u, v), True) for u in a for v in b):
                    out.append(s)
        return out

    def graph(self, x, n):
        for t in subterms(n):
            if t.op == "it" and t.a[0] in ("nodes", "edges", "neigh"):
                return t.a[1]
            if t.op in ("tgt", "src"):
                return t.a[0]
        return None

    def start(self, e, st, g, n, k):
        R = self.R
        key, f = (R.t_key, R.t_span) if k == R.v_t else (R.nt_key, R.nt_span)
        return e.load(st, T("N", g, n), (("f", k, 0, R.node_key), ("f", 0, f, key), ("f", 0, R.s_start, R.span_key)))

    def compare(self, e, st, cv, x1, x2, c):
        o = cv.a[1]
        kind = o.a[0]
        out = set()
        if kind == "cmp":
            for v, s in c.call(st, o.a[1], [models.refto(x1), models.refto(x2)], "ordc"):
                out.add(self.sign(e, s, v))
        elif kind == "key":
            for k1, s1 in c.call(st, o.a[1], [models.refto(x1)], "ordk"):
                for k2, s2 in c.call(s1, o.a[1], [models.refto(x2)], "ordl"):
                    out.add(self.less(e, s2, e.deep(s2, k1), e.deep(s2, k2)))
        else:
            out.add(self.less(e, st, e.deep(st, x1), e.deep(st, x2)))
        return out

    def sign(self, e, st, v):
        if v.op == "agg":
            d = e.discr_of_variant(v.a[0], v.a[1])
        else:
            d = e.discr(st, v)
        if d is not None:
            return -1 if d in (255, -1) else d
        if v.op == "cmp":
            return self.less(e, st, v.a[0], v.a[1])
        if v.op in ("fld",) or v.op == "optof":
            return None
        return None

    def on_assume(self, e, st, cond, truth, fr, line):
        """a comparison whose outcome follows from which of the two starts first has no other outcome"""
        if self.busy and isinstance(cond, Term) and cond.op == "discr" and cond.a[0].op == "cmp" and isinstance(truth, int):
            d = self.less(e, st, cond.a[0].a[0], cond.a[0].a[1])
            if d in (-1, 1) and (-1 if truth in (255, -1) else truth) != d:
                return False
        return None

    def size(self, x):
        """a number of covered positions: end - start, less the skipped ones"""
        while x.op == "sub" and strip_ver(x.a[0]).op == "sub":
            x = strip_ver(x.a[0])
        if x.op == "sub":
            x, y = strip_ver(x.a[0]), strip_ver(x.a[1])
            return x.op == "fld" and y.op == "fld" and x.a[2] == self.R.s_end and y.a[2] == self.R.s_start
        return x.op == "len"

    def less(self, e, st, a, b):
        a, b = e.val(st, a), e.val(st, b)
        if a.op == "tup" and b.op == "tup":
            return self.less(e, st, a.a[0][0], b.a[0][0])
        if a.op == "agg" and a.a[0].endswith("Reverse") and b.op == "agg":
            d = self.less(e, st, a.a[2][0], b.a[2][0])
            return None if d is None else -d
        if a.op == "agg" and b.op == "agg" and a.a[0] == self.R.span_key:
            return self.less(e, st, a.a[2][self.R.s_start], b.a[2][self.R.s_start])
        x, y = strip_ver(a), strip_ver(b)
        if x.op == "fld" and y.op == "fld" and x.a[2] in (self.R.t_span, self.R.nt_span) and strip_ver(x.a[0]).op == "fld":
            # whole spans: ordered by their start first (C11)
            s1, s2 = T("fld", a, 0, self.R.s_start), T("fld", b, 0, self.R.s_start)
            return self.less(e, st, s1, s2)
        if e.evalb(st, lt(a, b)) is True:
            return -1
        if e.evalb(st, lt(b, a)) is True:
            return 1
        if a.op in ("nd", "el", "tgt", "src") or x.op == "fld" and x.a[2] in (self.R.t_form, self.R.t_pos, self.R.nt_label, self.R.s_end):
            return 0        # ordered by something else
        if self.size(x) and self.size(y):
            return 0        # ordered by how much they cover
        return None

    # -- draws
    def on_draw(self, e, st, it, x, c):
        if self.busy > 1:
            return
        es = els(x)
        if not es:
            return
        try:
            o = self.order(e, st, it, c)
        except engine.Dead:
            return
        for t in es:
            if o is UNK:
                self.cls.pop(t.a[-1], None)
            else:
                self.cls[t.a[-1]] = o

    def drawn(self, t, deep=True):
        """orders in which the nodes a value is about were drawn"""
        t = strip_marks(t)
        return {self.cls[x.a[-1]] for x in els(t, None, deep) if x.a[-1] in self.cls}

    def on_event(self, e, st, name, args, fr, line):
        if name == "push" and not self.busy:
            x = e.deep(st, args["x"]) if isinstance(args["x"], Term) else args["x"]
            o = self.drawn(x)
            sk = models.skeleton(models.freeze(e, st, args["x"]))
            ks = models.kinds_known(st, models.freeze(e, st, args["x"]))
            if sk is not models.HOLE and ks:
                sk = T("where", sk, tuple(T("is", models.skeleton(f.a[0]), T("int", d)) for f, d in ks))
            self.pushed.setdefault(sk, set()).update(o)
        if not self.busy:
            self.sink(e, st, name, args, fr, line)

    def sink(self, e, st, name, args, fr, line):
        pass


def strip_marks(t):
    return t


class Sinks(Orders):
    """what is handed to something ordered must come from a position-ordered sequence"""

    def __init__(self, r, p, name):
        Orders.__init__(self, r, p)
        self.name = name
        self.good = self.und = 0
        self.badk = set()

    def judge_value(self, what, x, fr, line, deep=True):
        os = self.drawn(x, deep)
        self.verdict(what, os, loc(fr, line) if fr is not None else "")

    def verdict(self, what, os, where):
        if UNS in os or REV in os:
            o = UNS if UNS in os else REV
            self.badk.add((what, o))
            self.r.ob(False, "%s:%s" % (self.name, what.replace(" ", "-")), "%s: %s taken in %s, not in order of position" % (self.name, what, o), where)
        elif POS in os or SAME in os:
            self.good += 1
            self.r.ob(True, "", "", "")
        else:
            self.und += 1

    def finish(self, least=1):
        r = self.r
        r.count("sinks decided", self.good)
        r.count("sinks undecided", self.und)
        r.sample("%s: %d uses in position order, %d undecided" % (self.name, self.good, self.und))
        r.ob(self.good + self.und + len(self.badk) >= least, "%s:nothing" % self.name, "%s: no ordered use of words or constituents was found to check" % self.name, "")


class SentenceSink(Sinks):
    def sink(self, e, st, name, args, fr, line):
        if name == "sentence_push":
            self.judge_value("tokens", e.deep(st, args["x"]), fr, line)


class WriteSink(Sinks):
    def sink(self, e, st, name, args, fr, line):
        if name == "write":
            x = e.deep(st, args["v"]) if isinstance(args["v"], Term) else args["v"]
            if els(x):
                self.judge_value("lines", x, fr, line)
        elif name == "push":
            x = e.deep(st, args["x"])
            if els(x):
                os = self.drawn(x)
                if UNS in os or REV in os:
                    self.verdict("nodes queued for numbering", os, loc(fr, line))


class BracketSink(Sinks):
    def sink(self, e, st, name, args, fr, line):
        if name == "opaque" and "io::ptb" in (args["info"].get("path") or ""):
            for a in args["args"]:
                a = e.deep(st, a)
                if a.op in ("el", "tgt"):
                    self.judge_value("children", a, fr, line, deep=False)


class FieldSink(Sinks):
    """writes to one field of terminals, in order"""
    field = None
    what = "words"

    def on_write(self, e, st, root, path, val, fr, line):
        if root.op == "N" and len(path) >= 2 and path[0][1] == self.R.v_t and path[1][2] == self.field:
            self.judge_value(self.what, root.a[1], fr, line, deep=False)


class UserSink(Sinks):
    def sink(self, e, st, name, args, fr, line):
        if name == "usercall":
            xs = []
            for a in args["args"]:
                a = e.deep(st, a)
                xs.extend(x for x in els(a) if a.op == "el")
            if xs:
                self.judge_value("words visited", T("tup", tuple(xs)), fr, line, deep=False)


class GroupSink(Sinks):
    def on_call(self, e, st, key, info, args, fr, line):
        b = self.p.bodies.get(key)
        if b is not None and not self.busy and re.search(r"tree::Tree::(insert_unary_above|reattach_node)$", b["path"]):
            for a in args[1:]:
                a = e.deep(st, a)
                if a.op in ("el", "tgt"):
                    self.judge_value("words grouped under a new node", a, fr, line, deep=False)
        return None


class IndexSink(Sinks):
    def sink(self, e, st, name, args, fr, line):
        if name == "vindex":
            self.collection(e, st, args["v"], fr, line)

    def collection(self, e, st, v, fr, line):
        if v.op != "cv":
            return
        xs = v.a[0].a if v.a[0].op == "elems" else ()
        c = engine.Ctx(e, fr, 0, {"path": "", "args": []}, [], [], line)
        o = self.order(e, st, v, c)
        if o in (UNS, REV, POS):
            self.verdict("words looked up by position", {o}, loc(fr, line))
        else:
            self.und += 1


class ProjectSink(Sinks):
    """results stored per word: under the position of the word the result is for"""

    def sink(self, e, st, name, args, fr, line):
        if name == "vindex" and args["mut"]:
            idx = e.deep(st, args["idx"])
            if idx.op == "eidx":
                c = engine.Ctx(e, fr, 0, {"path": "", "args": []}, [], [], line)
                o = self.order(e, st, idx.a[0], c)
                self.verdict("projected nodes stored by count", {o} - {UNK}, loc(fr, line))
            elif self.starts(e, st, T("tup", (idx,))):
                self.verdict("projected nodes", {POS}, loc(fr, line))
            else:
                self.verdict("projected nodes", set(), loc(fr, line))


class NumberSink(Sinks):
    """positions handed out by counting"""

    def on_write(self, e, st, root, path, val, fr, line):
        R = self.R
        if root.op == "N" and len(path) >= 2 and path[0][1] == R.v_t and path[1][2] == R.t_span and not self.busy:
            v = e.deep(st, val)
            for t in subterms(v):
                if t.op == "eidx":
                    c = engine.Ctx(e, fr, 0, {"path": "", "args": []}, [], [], line)
                    o = self.order(e, st, t.a[0], c)
                    if o in (UNS, REV, POS):
                        self.verdict("words numbered", {o}, loc(fr, line))
                    else:
                        self.und += 1


@check("C07", "order provenance over MIR: every sequence carries the order it was put in (sort comparators are evaluated symbolically on two elements, the first starting earlier); sinks must draw in position order",
       "other",
       "Decides every place where words or children enter an ordered result: tokens of a sentence, NEGRA lines and identifiers, bracketed children, tag encodings, "
       "part-of-speech annotation, visits of per-token closures, runs grouped by intermediate insertion, look-ups by position in projectivisation and renumbering. "
       "Orders it cannot classify are counted as undecided, not reported. The comparison of spans by start first is C11.")
def c07(r):
    p = r.p
    R = p.R
    r.rule("at every ordered use the node was last drawn from a sequence sorted so that an earlier first position comes first; "
           "sequences in graph storage order or sorted by anything else are violations")
    # tokens
    for rx in (r"From<tree::Tree> for conllx::graph::Sentence>::from$", r"From<&'\w+ tree::Tree> for conllx::graph::Sentence>::from$"):
        k = body(p, rx)
        h = SentenceSink(r, p, "sentence from a tree by value" if "<tree" in rx else "sentence from a tree by reference")
        e, ex = run(p, k, h)
        returned(r, p, h, e, ex, k, "tokens", False)
        h.finish()
    k = body(p, r"NegraWriter<.*> as io::WriteTree>::write_tree$")
    h = WriteSink(r, p, "NEGRA writer")
    run(p, k, h)
    h.finish()
    k = body(p, r"^io::ptb::PTBFormat::tree_to_string$")
    h = BracketSink(r, p, "bracketed output")
    run(p, k, h)
    for k2, b in p.bodies.items():
        if b["path"].startswith("io::ptb::") and k2 in recursive(p) and k2 != k:
            run(p, k2, h)
    h.finish()
    for name in ("encode_absolute", "encode_relative"):
        k = body(p, r"Encode>::%s$" % name)
        h = Sinks(r, p, name)
        e, ex = run(p, k, h)
        returned(r, p, h, e, ex, k, "tags", True)
        h.finish()
    k = body(p, r"Encode>::annotate_relative$")
    h = FieldSink(r, p, "annotate_relative")
    h.field, h.what = R.t_feat, "words annotated with relative tags"
    run(p, k, h)
    h.finish()
    k = body(p, r"AnnotatePOS>::annotate_pos$")
    h = FieldSink(r, p, "annotate_pos")
    h.field, h.what = R.t_pos, "words annotated with tags"
    run(p, k, h)
    h.finish()
    k = body(p, r"^tree::Tree::map_climber_path$")
    h = UserSink(r, p, "map_climber_path")
    run(p, k, h)
    h.finish()
    k = body(p, r"TreeOps>::insert_intermediate$")
    h = GroupSink(r, p, "insert_intermediate")
    run(p, k, h)
    h.finish()
    k = body(p, r"Projectivize>::projectivize$")
    h = IndexSink(r, p, "projectivize")
    run(p, k, h)
    h.finish()
    k = body(p, r"^tree::Tree::remove_node$")
    h = NumberSink(r, p, "remove_node")
    run(p, k, h)
    h.finish()
    k = body(p, r"^tree::Tree::project_nt_indices$")
    h = ProjectSink(r, p, "project_nt_indices")
    e, ex = run(p, k, h)
    returned(r, p, h, e, ex, k, "projected nodes", False)
    h.finish(0)


def recursive(p):
    if not hasattr(p, "_rec"):
        p._rec = set()
        for k, b in p.bodies.items():
            for bl in b["blocks"]:
                t = bl["t"]
                if t and t[0] == "call":
                    f = t[1]
                    if isinstance(f, list) and f and f[0] == "fn" and k in str(f):
                        p._rec.add(k)
            if k in p._rec:
                continue
    return p._rec


def returned(r, p, h, e, ex, k, what, result):
    c = ctx(e, k)
    for v, st in ex:
        v = e.deep(st, v)
        if result:
            if is_ok(e, st, v) is not True:
                continue
            v = e.deep(st, e.proj(v, ("f", 0, 0)))
            if v.op == "agg":
                v = e.deep(st, v.a[2][0])
        if v.op in ("cv", "coll"):
            o = h.order(e, st, v, c)
            h.verdict(what, {o} if o is not None else set(), p.bodies[k]["path"])
