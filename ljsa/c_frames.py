"""C10: a reader never yields a tree from an incomplete or misframed record."""
import glob, os, re
from rt import *
from terms import *
from c_effects import Invariants
from c_panics import grammar


def has(t, f):
    if f(t):
        return True
    if isinstance(t, Term):
        return any(has(x, f) for x in t.a)
    if isinstance(t, tuple):
        return any(has(x, f) for x in t)
    return False


def is_len(t):
    return isinstance(t, Term) and t.op in ("len", "mlen", "count") or isinstance(t, Term) and t.op in ("add", "sub") and has(t.a[0], lambda x: isinstance(x, Term) and x.op == "len")


class Frames(Invariants):
    """ghost state: what is known of the record the reader is in"""
    exitcap, cap = 400, 400

    def __init__(self, r, p, b):
        Invariants.__init__(self, r, p)
        self.b = b
        self.lines = 0

    def join_ps(self, a, b):
        return a if a == b else (a or frozenset()) & (b or frozenset())

    def ps_key(self, ps):
        return ps

    def opaque(self, e, key):
        return key in self.p.bodies and re.search(r"::string_to_tree$", self.p.bodies[key]["path"]) is not None

    def line_of(self, it):
        """is this a draw from the text the reader was given?"""
        if it.op != "it" or it.a[0] not in ("other", "iolines"):
            return False
        y = it.a[1]
        while isinstance(y, Term) and y.op == "ver":
            y = y.a[0]
        return isinstance(y, Term) and (y.op == "phi" or has(y, lambda x: isinstance(x, Term) and x.op == "sym" and x.a[0] == "self") and not has(y, lambda x: isinstance(x, Term) and x.op in ("prev", "el")))

    def flag(self, what, msg, fr, line):
        self.r.bad("%s:%s" % (self.b["path"], what), msg, loc(fr, line))

    def settle(self, ps, fr, line):
        if "nested" in ps:
            self.flag("nested", "reading goes on after a record was opened inside another; the text of the first is lost", fr, line)
        if "stray" in ps:
            self.flag("stray", "reading goes on after the end of a record that was not opened", fr, line)
        if "line" in ps and "open" in ps:
            self.flag("skipped", "a line inside a record is passed over without an error and without anything being added", fr, line)
        if "comment" in ps:
            self.flag("comment", "a line inside a tree is passed over as a comment", fr, line)

    def on_event(self, e, st, kind, d, fr, line):
        ps = st.ps or frozenset()
        if kind == "draw" and self.line_of(d["it"]):
            self.lines += 1
            self.settle(ps, fr, line)
            st.ps = (ps & {"open"}) | {"line", "read"}
        elif kind == "exhausted" and self.line_of(d["it"]):
            self.settle(ps, fr, line)
            st.ps = (ps & {"open", "read"})
        elif kind in ("add_node", "add_edge", "sinsert", "minsert") and "open" in ps:
            st.ps = ps - {"line"}

    def on_assume(self, e, st, cond, truth, fr, line):
        if Invariants.on_assume(self, e, st, cond, truth, fr, line) is False:
            return False
        ps = st.ps or frozenset()
        t = truth
        while isinstance(cond, Term) and cond.op == "not":
            cond, t = cond.a[0], not t
        if not isinstance(cond, Term) or not isinstance(t, bool):
            return None
        if cond.op == "app" and str(cond.a[0]).endswith("starts_with") and t:
            what = next((x for x in ("#BOS", "#EOS", "%") if cond.a[-1] == x or isinstance(cond.a[-1], Term) and x in [str(y) for y in cond.a[-1].a]), None)
            if what == "#BOS" and "line" in ps:
                self.r.count("openings")
                st.ps = ps - {"line"} | ({"nested"} if "open" in ps else {"open"})
            elif what == "#EOS" and "line" in ps:
                self.r.count("closings")
                st.ps = ps - {"line", "open"} | ({"closed"} if "open" in ps else {"stray"})
            elif what == "%" and "line" in ps:
                st.ps = ps - {"line"}
        elif cond.op == "eqv" and t:
            a, b = cond.a[:2]
            text = lambda x: isinstance(x, Term) and x.op != "str" and not (x.op == "c")
            if text(a) and text(b) and "closed" in ps and any(has(x, lambda y: isinstance(y, Term) and y.op == "piece") for x in (a, b)):
                st.ps = ps | {"ids"}
        elif cond.op in ("ieq", "lt"):
            a, b = cond.a[:2]
            off = cond.a[2] if len(cond.a) > 2 else 0
            flat = lambda x: not has(x, lambda y: isinstance(y, Term) and y.op in ("phi", "sym", "len", "mlen", "gcount", "count"))
            const = flat(a) or flat(b)
            if (cond.op == "ieq" and t and (off == 0 or const)) or (cond.op == "lt" and not t):
                g = [has(x, lambda y: isinstance(y, Term) and y.op == "gcount") for x in (a, b)]
                l = [is_len(x) for x in (a, b)]
                if cond.op == "lt":
                    # what is counted is not less than the number there are
                    g[0] = l[0] = False
                if g[0] != g[1] and (cond.op == "ieq" or g[1]):
                    st.ps = ps | {"reached"}
                elif l[0] != l[1] and not (const and off == 0) and not any(has(x, lambda y: isinstance(y, Term) and y.op in ("cat", "star", "str", "piece", "substr")) for x in (a, b)):
                    st.ps = ps | {"defined"}
        return None


def whole(r, p):
    """the grammar the bracket reader parses with"""
    root = os.environ.get("LJ_REPO", "/repo")
    n = 0
    for f in sorted(glob.glob(os.path.join(root, "lumberjack/src/**/*.pest"), recursive=True)):
        rules = {k: v[1] for k, v in grammar(open(f).read()).items()}
        where = os.path.relpath(f, root)
        opens = {k for k, v in rules.items() if v.strip() == '"("'}
        closes = {k for k, v in rules.items() if v.strip() == '")"'}
        for k, v in sorted(rules.items()):
            v2 = re.sub(r"//.*", "", v)
            neg = re.sub(r"!\s*\([^)]*?(\"[()]\"[^)]*?)*\)", "", re.sub(r"!\s*\((?:[^()\"]|\"[^\"]*\")*\)", "", v2))
            o = sum(len(re.findall(r"\b%s\b" % x, neg)) for x in opens) + (len(re.findall(r'"\("', neg)) if k not in opens else 0)
            c = sum(len(re.findall(r"\b%s\b" % x, neg)) for x in closes) + (len(re.findall(r'"\)"', neg)) if k not in closes else 0)
            if k in opens | closes:
                continue
            n += 1
            r.ob(o == c and not re.search(r"\b(%s)\s*[?*+]" % "|".join(opens | closes or {"#"}), neg), "grammar:%s:balance" % k, "the rule %s matches %d opening and %d closing brackets" % (k, o, c), where)
            if re.search(r"\bANY\b", v2) and k != "WHITESPACE":
                r.ob('"("' in v2 and '")"' in v2 or any(x in v2 for x in opens) and any(x in v2 for x in closes), "grammar:%s:any" % k, "the rule %s also matches brackets, so they need not balance" % k, where)
        if "tree" in rules:
            v = re.sub(r"^\{|\}$", "", rules["tree"].strip()).strip()
            r.ob(v.startswith("SOI"), "grammar:start", "text before the tree is left out", where)
            r.ob(v.endswith("EOI"), "grammar:end", "text after the tree is left out", where)
    r.floor("grammar rules", n, 4)
    # and it is that rule which is asked for
    for k, b in sorted(p.bodies.items()):
        if "::rules::" in b["path"] or re.search(r"as pest::", b["path"]):
            continue
        for bl in b["blocks"]:
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "fn" and re.search(r"Parser::parse$", t[1][1].get("key", "")) and t[2]:
                o = t[2][0]
                v = None
                if o[0] == "c":
                    v = str(o[1])
                else:
                    for bb in b["blocks"]:
                        for s in bb["s"]:
                            if s[0] == "=" and s[1] == o[1] and s[2][0] == "agg":
                                v = str(s[2][1][3]) if isinstance(s[2][1], list) and len(s[2][1]) > 3 else None
                r.count("parser calls")
                if v is not None:
                    r.ob(v == "tree", "%s:rule" % b["path"], "the text is parsed by the rule %s, which need not take in all of it" % v, "%s:%s" % (b["file"], bl["l"]))


@check("C10", "abstract interpretation of the readers' next() over MIR with a ghost protocol state (typestate): opened, closed, identifier compared, references resolved, nodes reached, line used; structural check of the pest grammar", "other",
       "For every path through the NEGRA reader that yields a tree, the branches taken must have established the comparison of identifiers, the number of defined nonterminals and the number of nodes reached from the root. "
       "For brackets the grammar is anchored at both ends and every rule matches as many opening as closing brackets; pest itself is trusted. What each field of a line must contain is left to C13 and C16.")
def c10(r):
    p = r.p
    r.rule("a tree is yielded only on paths on which a record was opened and closed, the identifiers compared equal, all referenced nonterminals were defined and all nodes reached")
    r.rule("the end of the input inside a record, a record inside a record and an end without a beginning are errors")
    r.rule("a line inside a record is an error or adds something")
    r.rule("the bracket grammar takes in all of the text and its brackets balance")
    whole(r, p)
    n = 0
    for k, b in sorted(p.bodies.items()):
        m = re.search(r"(Negra|PTB)Reader<.*Iterator>::next$", b["path"])
        if not m:
            continue
        n += 1
        h = Frames(r, p, b)
        e, ex = run(p, k, h)
        where = "%s:%s" % (b["file"], b["line"])
        for v, st in ex:
            ps = st.ps or frozenset()
            v = e.deep(st, v)
            d = e.discr(st, v)
            r.count("ways out of a reader")
            if d == 0:
                r.ob("open" not in ps, b["path"] + ":cut-off", "a record cut off by the end of the input is dropped without an error", where)
                r.ob(not ps & {"nested", "stray"}, b["path"] + ":end", "a misframed record ends the input without an error", where)
                continue
            if v.op != "agg" or not v.a[2]:
                continue
            x = v.a[2][0]
            if m.group(1) == "PTB":
                if h.lines and is_ok(e, st, x) is True:
                    r.ob("read" in ps, b["path"] + ":text", "a tree is yielded without text having been read", where)
                continue
            if is_ok(e, st, x) is not True:
                continue
            r.count("paths that yield a tree")
            for need, msg in (("closed", "without the record having been opened and closed"), ("ids", "without the identifiers of its beginning and end having compared equal"),
                              ("defined", "without all nonterminals it refers to having been defined"), ("reached", "without all of its nodes being reached from the root")):
                r.ob(need in ps, "%s:%s" % (b["path"], need), "a tree is yielded " + msg, where)
            r.ob(not ps & {"nested", "stray"}, b["path"] + ":misframed", "a tree is yielded from a misframed record", where)
        r.count("draws of lines", h.lines)
    r.floor("readers", n, 2)
    r.floor("paths that yield a tree", r.counts.get("paths that yield a tree", 0), 1)
    r.floor("openings", r.counts.get("openings", 0), 1)
    r.floor("closings", r.counts.get("closings", 0), 1)
