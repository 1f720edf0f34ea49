"""C13: no text makes a reader panic."""
import glob, os, re
from rt import *
from terms import *
import engine, models, c_guard
from c_conllx import strip_ver, ctx
from c_effects import Invariants
from c_failures import READERS

TEXT = ("piece", "haspiece", "parse", "substr", "find", "replace", "replacen")
TEXTIT = ("split", "ws", "splitn", "lines", "chars", "char_indices", "bytes", "iolines")


def text_of(t, params=()):
    """the part of a term that was read from the text; lengths of collections do not count, except of pieces of text"""
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            for x in t:
                r = text_of(x, params)
                if r is not None:
                    return r
        return None
    if t in params:
        return t
    if t.op in TEXT or t.op == "it" and t.a[0] in TEXTIT:
        return t
    if t.op == "app" and re.match(r"(\w+::)*(str|String|char)::|Pair::as_str|(\w+::)*Token::(?!new)|(\w+::)*Features::as_map", str(t.a[0])):
        return t
    if t.op in ("len", "count"):
        x = t.a[0]
        while isinstance(x, Term) and x.op in ("cv", "coll", "it") and not (x.op == "it" and x.a[0] in TEXTIT):
            x = next((y for y in x.a if isinstance(y, Term)), None)
        return t if isinstance(x, Term) and x.op == "it" else None
    if t.op in ("gcount", "nd", "ed", "src", "tgt", "N", "E"):
        return None
    for x in t.a:
        r = text_of(x, params)
        if r is not None:
            return r
    return None


class Panics(Invariants):
    """ghost state: (last condition decided, (frame, what gave no value))"""
    cap, exitcap = 40, 40

    def __init__(self, r, p, name):
        Invariants.__init__(self, r, p)
        self.name = name
        self.found, self.sites, self.inner = {}, set(), set()
        self.texts = ()
        self.level_key, self.levels_seen = None, 0

    def ps_key(self, ps):
        return None

    def ps_effect(self, ps):
        return None

    def join_ps(self, a, b):
        return a

    def ps_atoms(self, ps):
        return []

    def ps_subst(self, ps, f):
        return ps

    def remember(self, st, cond=None, src=None, last=None):
        """last: the value whose absence was the last thing decided"""
        old = st.ps or (None, None, None)
        st.ps = (cond if cond is not None else old[0], src if src is not None else old[1],
                 last if last is not None else src[1] if src is not None else None if cond is not None else old[2])

    def on_assume(self, e, st, cond, truth, fr, line):
        if Invariants.on_assume(self, e, st, cond, truth, fr, line) is False:
            return False
        self.remember(st, cond=(fr.fid if fr is not None else 0, cond))
        x = cond.a[0] if cond.op == "discr" and truth == 0 else cond if cond.op == "haspiece" and truth is False else None
        if x is not None and fr is not None and not (x.op == "app" and str(x.a[0]).endswith("Node::token")) and text_of(e.deep(st, x), self.texts) is not None:
            self.remember(st, last=x)
        return None

    def flag(self, fr, line, what, msg):
        self.found.setdefault("%s:%s" % (fr.body["path"], what), (msg, loc(fr, line)))

    def site(self, fr, kind, line):
        self.sites.add((fr.body["path"], kind, line))

    # -- places that may panic
    def on_panic(self, e, st, kind, fr, line):
        self.site(fr, kind, line)
        t = self.panics_on
        if kind.startswith("overflow"):
            if t is not None and self.number(e, st, t):
                self.flag(fr, line, "overflow", "an arithmetic operation on a number read from the text can overflow")
            return
        t = e.deep(st, t) if t is not None else None
        if kind.startswith("unwrap"):
            if t is not None and t.op != "agg":
                x = text_of(t, self.texts)
                if x is not None:
                    return self.flag(fr, line, kind, "the result of reading a value from the text is unwrapped")
                return
            x = self.source(st, fr)
            if x is not None:
                self.flag(fr, line, kind, "a value that is missing in some texts is unwrapped")
            elif t is not None and t.op == "agg" and any(text_of(y, self.texts) is not None for y in t.a[2]):
                self.flag(fr, line, kind, "an error met in the text is unwrapped")
            return
        # a failed assertion, a bounds check, a call of panic!()
        c = t
        if c is None:
            last = (st.ps or (None, None))[0]
            c = e.deep(st, last[1]) if last and last[0] == fr.fid else None
        if c is not None and text_of(c, self.texts) is not None:
            self.flag(fr, line, "panic", "panics on a condition over the text")

    def number(self, e, st, t):
        """is an operand a number that was read from the text?"""
        if not isinstance(t, Term):
            return False
        if t.op == "parse":
            return True
        if t.op in ("ovf", "lin", "add", "sub", "mul", "cast", "conv", "fld", "neg"):
            return any(self.number(e, st, e.deep(st, x)) for x in t.a if isinstance(x, Term))
        return False

    def source(self, st, fr):
        """what gave no value, if it was asked in the frame that unwraps it or one called by it, or was the last thing decided"""
        src = (st.ps or (None, None))[1]
        last = st.ps[2] if st.ps else None
        if last is not None:
            x = text_of(last, self.texts)
            if x is not None:
                return x
        if src is None:
            return None
        f = src[0]
        while f is not None:
            if f.fid == fr.fid:
                return text_of(src[1], self.texts)
            f = f.parent
        return None

    def on_event(self, e, st, name, args, fr, line):
        if name == "exhausted":
            it = args["it"]
            base = it
            while isinstance(base, Term) and base.op == "it" and base.a[0] in ("filter", "map", "enum", "peek", "rev", "skip", "take", "same", "cloned", "filter_map") and len(base.a) > 1:
                base = base.a[1]
            pest = isinstance(base, Term) and base.op == "it" and base.a[0] == "pest"
            self.remember(st, src=(fr, T("tup", ()) if pest else e.deep(st, base)))
        elif name == "missing":
            self.remember(st, src=(fr, tup(e.deep(st, args["k"]), args["m"] if args["m"].op == "app" else UNIT)))
        elif name == "mindex":
            self.site(fr, "index", line)
            known = any(d is True and f.op == "app" and str(f.a[0]).endswith("::contains_key") and f.a[2] is args["k"] and strip_ver(f.a[1]) is strip_ver(args["m"]) for f, d in st.facts.items())
            if not known and text_of(e.deep(st, args["k"]), self.texts) is not None:
                self.flag(fr, line, "index", "a map is indexed with a key read from the text")
        elif name in ("vindex", "vtake"):
            self.site(fr, "index", line)
            v, i = e.deep(st, args["v"]), e.deep(st, args["idx"])
            if (text_of(i, self.texts) is not None or text_of(T("len", v), self.texts) is not None) and e.evalb(st, lt(args["idx"], models.length(e, st, args["v"]))) is not True:
                self.flag(fr, line, "index", "a collection that depends on the text is indexed without a check of its length")
        elif name == "push" and self.level_key is not None:
            for good in self.levels(e, st, e.deep(st, args["x"])):
                self.levels_seen += 1
                if not good:
                    self.flag(fr, line, "level", "a number of common ancestors that may be zero gets into an encoding; decoding it subtracts one from it")
        elif name == "strindex":
            self.site(fr, "slice", line)
            v = e.val(st, args["v"])
            idx = args["idx"]
            bounds = idx.a[2] if idx.op == "agg" else (idx,)
            for b in bounds:
                if not self.inside(e, st, v, e.val(st, b)):
                    self.flag(fr, line, "slice", "text is sliced at a position that some texts do not have")
        return None

    def levels(self, e, st, v):
        """(number read from the text, is it known to be at least one) for the ancestor levels in a value"""
        for x in subterms(v):
            if x.op == "agg" and x.a[0] == self.level_key and x.a[2]:
                n = x.a[2][0]
                y = e.deep(st, n)
                if any(z.op == "parse" for z in subterms(y)):
                    yield any(e.evalb(st, c) is t for c, t in ((lt(ZERO, n), True), (lt(n, ONE), False), (ieq(n, ZERO), False))) or e.evalb(st, lt(n, ONE)) is False

    def inside(self, e, st, v, b):
        base, k = split_lin(b)
        if base is None or base is ZERO_BASE or b.op == "int":
            n = b.a[0] if b.op == "int" else k
            return n == 0 or self.prefix(e, st, v) >= n
        if base.op == "find":
            s, pat = base.a[1], base.a[2]
            if k == 0 or pat.op in ("str", "char") and 0 <= k <= len(pat.a[0].encode()):
                return s is v or strip_ver(s) is strip_ver(v)
            return False
        if base.op == "len":
            return base.a[0] is v and k == 0
        return False

    def prefix(self, e, st, v):
        """bytes the text is known to begin with"""
        n = 0
        whole = [v]
        if v.op == "piece" and v.a[0] == "ws" and v.a[3] == 0 or v.op == "piece" and v.a[0] == "split" and v.a[3] == 0:
            whole.append(v.a[1])
        if v.op == "substr" and v.a[1].op == "find" and v.a[1].a[2].op in ("str", "char"):
            n = len(v.a[1].a[2].a[0].encode())
        for f, d in st.facts.items():
            if d is True and f.op in ("app", "starts") and any("starts_with" in str(x) for x in f.a[:1]) and any(f.a[1] is w for w in whole) and f.a[2].op in ("str", "char"):
                if f.a[1] is not v and (re.search(r"\s", f.a[2].a[0]) or v.a[0] != "ws"):
                    continue
                n = max(n, len(f.a[2].a[0].encode()))
        return n


ONE = T("int", 1)
ZERO_BASE = split_lin(T("int", 0))[0]

RULE = re.compile(r"(\w+)\s*=\s*([_@$!]?)\s*\{", re.S)


def grammar(text):
    """pest rules: name -> (modifier, syntax tree)"""
    text = re.sub(r"//[^\n]*", "", text)
    out, pos = {}, 0
    while True:
        m = RULE.search(text, pos)
        if m is None:
            return out
        i, depth, quote = m.end(), 1, False
        while depth:
            ch = text[i]
            if quote:
                if ch == "\\":
                    i += 1
                elif ch == '"':
                    quote = False
            elif ch == '"':
                quote = True
            elif ch == "{":
                depth += 1
            elif ch == "}":
                depth -= 1
            i += 1
        out[m.group(1)] = (m.group(2), text[m.end():i - 1])
        pos = i


def least(rules, src):
    """the least number of pairs an expression gives; EOI counts as one"""
    toks = re.findall(r'"(?:\\.|[^"\\])*"|\'[^\']*\'|\w+|\.\.|\{[^}]*\}|[~|()?*+!&^]', src)

    def alt(i):
        n, i = seq(i)
        while i < len(toks) and toks[i] == "|":
            m, i = seq(i + 1)
            n = min(n, m)
        return n, i

    def seq(i):
        n, i = item(i)
        while i < len(toks) and toks[i] == "~":
            m, i = item(i + 1)
            n += m
        return n, i

    def item(i):
        look = False
        while i < len(toks) and toks[i] in "!&^":
            look = look or toks[i] in "!&"
            i += 1
        if toks[i] == "(":
            n, i = alt(i + 1)
            i += 1
        else:
            t = toks[i]
            i += 1
            if t == "EOI":
                n = 1
            elif t in rules:
                n = 1 if rules[t][0] != "_" else (least(rules, rules[t][1]) if t not in busy else 1)
            else:
                n = 0
        while i < len(toks) and (toks[i] in "?*+" or toks[i].startswith("{")):
            if toks[i] in "?*":
                n = 0
            i += 1
        return (0 if look else n), i

    busy = least.busy
    key = id(src)
    if key in busy:
        return 1
    busy.add(key)
    try:
        return alt(0)[0]
    finally:
        busy.discard(key)


least.busy = set()


@check("C13", "interprocedural abstract interpretation of the readers over MIR: every reachable panic, unwrap, index, slice and arithmetic overflow is judged by whether the value it depends on was read from the text (taint) and whether the path bounds it; "
              "rule-by-rule least number of pairs of the pest grammar", "other",
       "Entries: the ancestor parsers, the decoders from CoNLL-X, the NEGRA and PTB readers. What a panic depends on is the condition decided last or the operand; panics over values that are not text (invariants of the trees built) are left to C05, C06 and C14. "
       "Memory exhaustion, recursion depth and panics inside libraries (conllx, pest) are not covered.")
def c13(r):
    p = r.p
    r.rule("a place that can panic - unwrap/expect, panic!, assert!, an index or slice, integer overflow - is reached in a reader only where it does not depend on what the text says, or the path has established that it cannot happen")
    ks = sorted(k for k, b in p.bodies.items() if re.search(READERS, b["path"]) and "{closure" not in b["path"])
    level = None
    for k in ks:
        b = p.bodies[k]
        if not re.search(r"Ancestor as .*TryFrom<", b["path"]):
            continue
        h = Panics(r, p, b["path"])
        h.texts = (T("sym", "value"), T("sym", c_guard.param_name(b, 1)))
        e, ex = run(p, k, h)
        report(r, h, b)
        for v, st in ex:
            if is_ok(e, st, v) is not True:
                continue
            v = e.deep(st, v)
            for x in v.a[2] if v.op == "agg" else ():
                if x.op == "agg" and "Absolute" in b["path"] and x.a[2]:
                    level = x.a[0]
                    h.level_key = level
                    for good in h.levels(e, st, x):
                        r.count("ancestor levels judged")
                        r.ob(good, "%s:level" % b["path"], "a number of common ancestors that may be zero is accepted; decoding it subtracts one from it", b["file"] if "file" in b else "")
    todo = [k for k in ks if not re.search(r"Ancestor as .*TryFrom<", p.bodies[k]["path"])]
    todo += [k for k, b in sorted(p.bodies.items()) if re.search(r"::try_from_relative$|ConversionResult::\w+$", b["path"])]
    for k in todo:
        b = p.bodies[k]
        h = Panics(r, p, b["path"])
        h.level_key = level
        run(p, k, h)
        report(r, h, b)
        r.count("ancestor levels judged", h.levels_seen)
    path = None
    root = os.environ.get("LJ_REPO", "/repo")
    for f in sorted(glob.glob(os.path.join(root, "lumberjack/src/**/*.pest"), recursive=True)):
        rules = grammar(open(f).read())
        where = os.path.relpath(f, root)
        r.count("grammar rules", len(rules))
        for n, (mod, src) in sorted(rules.items()):
            if n in ("nonterminal", "preterminal"):
                r.ob(least(rules, src) >= 2, "grammar:%s" % n, "a %s can match without two parts inside it; the reader unwraps both" % n, where)
            if n == "tree":
                r.ob(least(rules, src) >= 2 and re.search(r"EOI\s*$", src) is not None, "grammar:tree", "a line can match without a node in it, or with something left over", where)
    r.floor("entries", r.counts.get("entries", 0), 6)
    r.floor("places that may panic", r.counts.get("places that may panic", 0), 15)
    r.floor("ancestor levels judged", r.counts.get("ancestor levels judged", 0), 1)


def report(r, h, b):
    r.count("entries")
    r.count("places that may panic", len(h.sites))
    for key, (msg, where) in sorted(h.found.items()):
        r.bad(key, msg, where)
    r.ob(True, "entry:%s" % b["path"], "", "")
    for s in sorted(h.sites, key=str)[:12]:
        r.sample("%s: %s at line %s" % (s[0], s[1], s[2]))
