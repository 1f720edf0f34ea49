"""C19: CoNLL-X conversion carries every token attribute; the tag encodings agree on names and separators."""
import re
from rt import *
from terms import *
import engine, models

TOKEN = models.TOKEN
CAPS = dict(exitcap=400, cap=600)


def strip_ver(t, memo=None):
    if not isinstance(t, Term):
        return tuple(strip_ver(x, memo) for x in t) if isinstance(t, tuple) else t
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = memo[t] = strip_ver(t.a[1], memo) if t.op == "ver" else (rebuild(t.op, tuple(strip_ver(x, memo) for x in t.a)) if t.a else t)
    return r


def ctx(e, k):
    return engine.Ctx(e, e.new_frame(k, None, 0, "x"), 0, {"path": "", "args": []}, [], [], 0)


# ------------------------------------------------------------------ tokens
def altered(x):
    """is the value a text made from another one?"""
    return x.op in ("replace", "replacen", "padded", "cat", "substr", "piece", "stripped") or \
        x.op == "app" and re.match(r"(str|String|char)::(?!from|as_|to_string|to_owned|into)", str(x.a[0])) is not None


class Tokens(object):
    """obligations on one produced token"""

    def __init__(self, r, p):
        self.r, self.p, self.R = r, p, p.R
        self.checked = 0
        self.undecided = 0

    def source(self, t):
        """the terminal whose field t is: (terminal term, field)"""
        R = self.R
        if t.op == "fld" and t.a[1] == 0 and t.a[2] in (R.t_form, R.t_pos, R.t_lemma, R.t_feat):
            return t.a[0], t.a[2]
        if t.op == "fld" and (t.a[1], t.a[2]) == (1, 0):
            return self.source(t.a[0])
        return None

    def name(self, f):
        R = self.R
        return {R.t_form: "form", R.t_pos: "pos", R.t_lemma: "lemma", R.t_feat: "features"}.get(f, "?")

    def column(self, e, st, col, v, S, field, where):
        """column `col` must carry field `field` of the terminal S"""
        who = "token:%s" % col
        v = strip_ver(v)
        want = T("fld", S, 0, field)
        R = self.R
        if v is want:
            return self.r.ob(True, who, "")
        if field in (R.t_form,):
            return self.text(who, v, want, where)
        if v.op == "agg" and v.a[1] == 0 and "Option" in str(v.a[0]):
            # nothing written: right only if the word has none
            if field == R.t_pos:
                return self.r.ob(False, who, "a token can be produced without its part-of-speech tag", where)
            d = self.known_none(e, st, S, field)
            if not d and self.later:
                self.undecided += 1      # a later round of a loop that empties the words it visits: its slot may be its own earlier one
                return
            return self.r.ob(d, who, "a token can be produced without the word's %s although the word has one" % self.name(field), where)
        if v.op == "agg" and v.a[1] == 1:
            x = v.a[2][0]
            if field == R.t_pos:
                return self.text(who, x, want, where)
            if field == R.t_lemma:
                return self.text(who, x, T("fld", want, 1, 0), where)
            if field == R.t_feat:
                return self.feats(who, x, T("fld", want, 1, 0), where)
        src = self.source(v)
        if src:
            return self.r.ob(False, who, "the %s column of a token is given the word's %s" % (col, self.name(src[1])), where)
        self.undecided += 1

    def known_none(self, e, st, S, field):
        for k, v in st.facts.items():
            if k.op in ("discr", "isv") and strip_ver(k.a[0]) is T("fld", S, 0, field):
                if v == 0 or v is False and k.a[-1] == 1 or v is True and k.a[-1] == 0:
                    return True
        return e.discr(st, T("fld", S, 0, field)) == 0

    def text(self, who, x, want, where):
        x = strip_ver(x)
        while x.op == "disp":
            x = x.a[-1]
        if x is want:
            return self.r.ob(True, who, "")
        src = self.source(x)
        if src or x.op == "str":
            return self.r.ob(False, who, "the column is given %s instead of the word's own value" % (
                "the %s of %s" % (self.name(src[1]), "the same word" if self.source(want) and src[0] is self.source(want)[0] else "another word") if src else repr(x.a[0])), where)
        if altered(x) and want in set(subterms(x)):
            return self.r.ob(False, who, "the column is given a changed copy of the word's value", where)
        self.undecided += 1

    def feats(self, who, x, want, where):
        if x.op == "app" and x.a[0] in ("Features::from_string",):
            x = strip_ver(x.a[1])
            if x.op == "joined":
                maps = [y for y in subterms(x.a[1]) if y.op == "it" and y.a[0] == "mapkv"]
                good = len(maps) == 1 and self.inside(maps[0], want)
                if not good and maps:
                    return self.r.ob(False, who, "the features of a token do not come from the word's own features", where)
                if any(y.op == "it" and y.a[0] in ("filter", "filter_map", "skip", "take", "step") for y in subterms(x.a[1])):
                    self.undecided += 1
                    return
                self.grammar(who, x, where)
                return
            if x.op == "str":
                return self.r.ob(False, who, "the features of a token are the fixed text %r" % x.a[0], where)
        self.undecided += 1

    def inside(self, m, want):
        return want in set(subterms(m))

    def grammar(self, who, x, where):
        sep = x.a[0]
        self.r.ob(sep.op == "str" and sep.a[0] == "|", who + ":list", "features are joined with %s, CoNLL-X separates them with '|'" % show(sep), where)
        for sk in x.a[2:]:
            parts = list(sk.a) if sk.op == "cat" else [sk]
            kinds = [("lit", y.a[0]) if y.op == "str" else y.op for y in parts]
            good = kinds in (["mkey"], ["mkey", ("lit", ":"), "fld"], ["mkey", ("lit", ":"), "mval"]) or not any(k == "mkey" for k in kinds)
            if good or kinds and kinds[0] == "mkey" and (len(kinds) < 2 or isinstance(kinds[1], tuple)) or kinds[-1] == "mkey":
                self.r.ob(good, who + ":pair", "a feature is written as %s, CoNLL-X expects key or key:value" % show(sk)[:120], where)
            else:
                self.undecided += 1

    def token(self, e, st, tok, where):
        R = self.R
        tok = e.deep(st, tok)
        later = any(y.op == "ver" for y in subterms(tok))
        tok = strip_ver(tok)
        self.checked += 1
        self.later = later
        if tok.op == "app" and tok.a[0] in ("into", "from") and len(tok.a) > 2:
            return self.terminal(e, st, tok.a[2], where)
        if tok.op != "agg" or tok.a[0] != TOKEN:
            self.undecided += 1
            return None
        f = list(tok.a[2]) + [models.NONE] * 4
        src = self.source(f[0])
        if src is None:
            if f[0].op == "str":
                self.r.ob(False, "token:form", "a token's form is the fixed text %r" % f[0].a[0], where)
            elif altered(f[0]) and any(y.op == "fld" and self.source(y) for y in subterms(f[0])):
                self.r.ob(False, "token:form", "a token's form is a changed copy of the word's value", where)
            else:
                self.undecided += 1
            return None
        S = src[0]
        if not self.r.ob(src[1] == R.t_form, "token:form", "the form column of a token is given the word's %s" % self.name(src[1]), where):
            return S
        self.column(e, st, "lemma", f[1], S, R.t_lemma, where)
        self.column(e, st, "pos", f[2], S, R.t_pos, where)
        self.column(e, st, "features", f[3], S, R.t_feat, where)
        if len(tok.a[2]) > 4:
            self.r.ob(e.discr(st, tok.a[2][4]) in (0, None), "token:cpos", "a value is written into the coarse tag column", where)
        return S

    def terminal(self, e, st, t, where):
        t = e.deep(st, t)
        return t


def covers(e, c, st, it, R):
    """does a collection of words leave one out?  a reason, or None"""
    if it.op == "cv":
        return covers(e, c, st, it.a[0], R) if it.a[0].op == "coll" else None
    if it.op == "coll":
        return covers(e, c, st, it.a[-1], R)
    if it.op != "it":
        return None
    k = it.a[0]
    if k in ("map", "inspect", "enum", "rev", "cv", "cvref", "same", "peek"):
        return covers(e, c, st, it.a[1], R)
    if k in ("skip", "take", "step") and len(it.a) > 2 and isinstance(it.a[2], Term) and it.a[2].op == "int":
        if k == "skip" and it.a[2].a[0] == 0 or k == "step" and it.a[2].a[0] == 1:
            return covers(e, c, st, it.a[1], R)
        return "%s(%s)" % (k, it.a[2].a[0])
    if k in ("filter", "filter_map"):
        why = covers(e, c, st, it.a[1], R)
        if why:
            return why
        for x, s, _ in models.draw(c, st.copy(), it.a[1], "cov"):
            if x is None:
                continue
            nodes = [y for y in subterms(e.deep(s, x)) if y.op == "el" and y.a[0].op == "it" and y.a[0].a[0] == "nodes"]
            if len(set(nodes)) != 1:
                continue
            nd = T("nd", nodes[0].a[0].a[1], nodes[0])
            if not e.assume1(s, T("isv", nd, R.v_t), True):
                continue
            for v, s2 in c.call(s, it.a[2], [models.refto(x) if k == "filter" else x], "covf"):
                if k == "filter":
                    t = e.evalb(s2, v)
                else:
                    d = e.discr(s2, v)
                    t = None if d is None else d == 1
                if t is False:
                    return "a filter"
                if t is None and k == "filter" and all(z.a[1] is nodes[0] for z in subterms(v) if z.op == "nd") and nd in set(subterms(v)):
                    return "a filter on %s" % show(v)[:80]
        return None
    return None


def fromtree(t):
    return any(y.op in ("sym", "P", "ref", "cv", "coll") for y in subterms(t))


class Words(Hooks):
    """one token per word: ghost state 0 = outside, 1 = word drawn, 2 = its token has been stored"""
    exitcap, cap = 400, 600

    def __init__(self, r, p, tk):
        self.r, self.p, self.tk, self.R = r, p, tk, p.R
        self.draws = self.pushes = 0
        self.words = {}

    def is_word(self, e, st, x):
        x = e.deep(st, x)
        if x.op == "ref":
            return True
        if x.op == "el":
            return True
        if x.op == "agg" and x.a[0] == TOKEN or x.op in ("tup",) and any(y.op == "agg" and y.a[0] == TOKEN for y in subterms(x)):
            return True
        if x.op == "tup":
            return any(y.op == "el" for y in subterms(x))
        return False

    def has_token(self, x):
        return any(y.op == "agg" and y.a[0] == TOKEN or y.op == "app" and y.a[0] in ("into", "from") and len(y.a) > 1 and "Token" in show(y.a[1]) for y in subterms(x))

    def ps_atoms(self, ps):
        return []

    def ps_subst(self, ps, f):
        return ps

    def join_ps(self, a, b):
        return a if a == b else min(a or 0, b or 0)

    def ps_key(self, ps):
        return ps

    def on_event(self, e, st, name, args, fr, line):
        where = loc(fr, line)
        if name in ("draw", "exhausted"):
            it = args["it"]
            if not any(y.op in ("it",) and y.a[0] == "nodes" for y in subterms(e.deep(st, it))):
                return
            if name == "draw" and not self.is_word(e, st, args["x"]):
                return
            if (st.ps or 0) in (1, 3):
                self.r.ob(False, "token:each-word", "a word can be drawn without a token being produced for it", where)
            if name == "draw":
                self.draws += 1
                self.cover(e, st, it, fr, where)
                st.ps = 3 if self.has_token(e.deep(st, args["x"])) else 1
            else:
                st.ps = 0
        elif name in ("push", "sentence_push"):
            x = e.deep(st, args["x"])
            if not self.has_token(x):
                if any(y.op == "el" for y in subterms(x)) and (st.ps or 0) == 1 and name == "push":
                    st.ps = 2      # words themselves are collected first
                return
            self.pushes += 1
            if (st.ps or 0) == 2:
                self.r.ob(False, "token:each-word", "two tokens can be produced for one word", where)
            was = st.ps or 0
            if was in (1, 3):
                self.r.ob(True, "token:each-word", "")
                st.ps = 2
            for y in subterms(x):
                if y.op == "agg" and y.a[0] == TOKEN and was != 3:
                    self.tk.token(e, st, y, where)

    def cover(self, e, st, it, fr, where):
        c = ctx(e, fr.key)
        try:
            why = covers(e, c, st.copy(), e.deep(st, it), self.R)
        except Exception:
            return
        self.r.ob(why is None, "token:every-word", "not every word of the tree gets a token: %s" % why, where)


def sentence(r, p, tk, key):
    """a function returning a Sentence made from a tree"""
    h = Words(r, p, tk)
    e, ex = run(p, key, h)
    where = p.bodies[key]["path"]
    c = ctx(e, key)
    for v, st in ex:
        if (st.ps or 0) in (1, 3):
            r.ob(False, "token:each-word", "a word can be drawn without a token being produced for it", where)
        v = e.deep(st, v)
        if v.op == "cv" and v.a[0].op == "coll":
            v = v.a[0]
        if v.op == "coll":
            it = v.a[-1]
            why = covers(e, c, st.copy(), it, p.R)
            stored = h.has_token(it)      # the tokens were made before, and checked when they were stored
            r.ob(why is None, "token:every-word", "not every word of the tree gets a token: %s" % why, where)
            for x, s, _ in models.draw(c, st.copy(), it, "tok"):
                if x is not None:
                    if not stored:
                        tk.token(e, s, x, where)
                    r.count("tokens produced by iterator")
        elif v.op == "cv":
            for x in v.a[0].a:
                if x.op == "agg" and x.a[0] == TOKEN:
                    r.count("tokens produced by loop")
        elif v.op == "app" and v.a[0] in ("into", "from"):
            r.ob(fromtree(v.a[-1]), "delegates", "the conversion does not start from the tree it is given", where)
        else:
            tk.undecided += 1
    return e, ex


# ------------------------------------------------------------------ tag text
def words_of(e, st, t):
    """the text of a tag as tokens: ("lit", char) / "L" label / "C" chain of the word / "N" number / "W" fixed word"""
    out = []

    def go(t, inlabel=False):
        t = strip_ver(t)
        if t.op == "str":
            for s in re.findall(r"[A-Za-z]+|[0-9]+|.", t.a[0]):
                out.append("N" if s.isdigit() else ("W", s) if s.isalpha() else ("lit", s))
        elif t.op == "cat":
            for x in t.a:
                go(x)
        elif t.op == "disp":
            out.append("N" if numeric(t.a[-1]) else "?")
        elif t.op in ("star", "mget", "fld") or t.op == "joined":
            out.append(kind(t))
        elif t.op == "padded":
            out.append(("lit", "<padding or sign>"))
            go(t.a[0])
        elif t.op in ("int", "phi", "add", "sub", "lin"):
            out.append("N")
        else:
            out.append("?")
    go(t)
    # neighbouring label pieces "chain _ label" are one label
    res = []
    for x in out:
        res.append(x)
        if len(res) >= 3 and res[-1] == "L" and res[-2] == ("lit", "_") and res[-3] in ("LC", "L"):
            res[-3:] = ["L"]
    return tuple("L" if x == "LC" else x for x in res)


def numeric(t):
    return t.op not in ("str", "cat", "star", "mget")


def kind(t):
    """L: label of a constituent (possibly with its chain), C: chain of the word"""
    fl = [x for x in subterms(t)]
    nts = [x for x in fl if x.op == "src"]     # reached by climbing an edge
    if t.op == "star":
        return "L"
    if t.op == "mget" or t.op == "fld" and t.a[0].op == "mget":
        return "LC" if nts else "C"
    return "L" if nts else "?"


class Split(object):
    """evaluates the reader's pieces on a tag given as words_of() tokens"""

    def __init__(self, X, toks):
        self.X, self.toks = X, toks

    def of(self, t):
        """tokens of text term t, "none" (no such piece) or None (not evaluable)"""
        t = strip_ver(t)
        if t is self.X:
            return self.toks
        if t.op == "piece" and t.a[0] == "split" and len(t.a) == 4:
            b = self.of(t.a[1])
            if not isinstance(b, tuple):
                return b
            sep = t.a[2]
            s = sep.a[0] if sep.op in ("str", "char") else None
            if isinstance(s, int):
                s = chr(s)
            i = t.a[3].a[0] if isinstance(t.a[3], Term) and t.a[3].op == "int" else t.a[3]
            if s is None or not isinstance(i, int):
                return None
            parts, cur = [], []
            for x in b:
                if x == ("lit", s):
                    parts.append(tuple(cur))
                    cur = []
                else:
                    cur.append(x)
            parts.append(tuple(cur))
            return parts[i] if i < len(parts) else "none"
        return None

    def fact(self, k, v):
        """does the fact hold on this tag: True / False / None"""
        if k.op == "haspiece":
            b = self.of(T("piece", *k.a))
            return None if b is None else (b != "none") == bool(v)
        if k.op == "eqv":
            for a, b in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                if b.op == "str":
                    s = self.of(a)
                    if s is None:
                        continue
                    if s == "none":
                        return False
                    lit = "".join(x[1] if isinstance(x, tuple) else "\0" for x in s)
                    return (lit == b.a[0]) == bool(v)
        if k.op == "ieq" and k.a[1].op == "len" and isinstance(v, bool):
            s = self.of(k.a[1].a[0])
            if s is None:
                return None
            return (len(s) == 0) == v
        if k.op == "discr" and k.a[0].op == "resof" and k.a[0].a[0].op == "parse":
            s = self.of(k.a[0].a[0].a[0])
            if s is None:
                return None
            return (s == ("N",)) == (v == 0)
        return None


class Capture(Hooks):
    exitcap, cap = 400, 600

    def __init__(self, want):
        self.want = want
        self.got = []
        self.calls = []

    def on_event(self, e, st, name, args, fr, line):
        if name in self.want:
            d = dict((k, e.deep(st, v) if isinstance(v, Term) else v) for k, v in args.items() if isinstance(v, Term))
            self.got.append((name, d, dict(st.facts), loc(fr, line), e, st))

    def on_call(self, e, st, key, info, args, fr, line):
        nm = info["path"].split("::")[-1]
        if nm in ("restore_unary_chains", "collapse_unary_chains"):
            self.calls.append((nm, e.deep(st, args[1]) if len(args) > 1 else None, loc(fr, line)))
            return None


def payload(v):
    """Some(x) -> x ; None -> "none" ; else None"""
    if v.op == "agg" and "Option" in str(v.a[0]):
        return "none" if v.a[1] == 0 else v.a[2][0]
    return None


def written(r, p, key, name):
    """(key, shape) pairs of the feature an annotation writes"""
    h = Capture(("minsert",))
    run(p, key, h)
    out = {}
    for _, d, facts, where, e, st in h.got:
        k = d["k"]
        x = payload(e.val(st, d["v"]))
        if k.op == "app" and len(k.a) > 1:
            k = k.a[-1]
        if k.op != "str" or x is None or x == "none":
            r.count("annotations of undecided shape")
            continue
        out.setdefault((k.a[0], words_of(e, st, x)), where)
    return out, h


def encodings(r, p):
    R = p.R
    K = {}
    shapes = {}
    for m in ("absolute", "relative"):
        k = body(p, r"Encode>::annotate_%s$" % m)
        w, h = written(r, p, k, m)
        keys = sorted({x for x, _ in w})
        if not r.ob(len(keys) >= 1, "annotate:%s" % m, "the %s annotation writes no feature" % m, p.bodies[k]["path"]):
            continue
        r.ob(len(keys) == 1, "annotate:%s:one-key" % m, "the %s annotation writes several features: %s" % (m, keys), p.bodies[k]["path"])
        K[m] = keys
        shapes[m] = w
        r.count("tag shapes written (%s)" % m, len(w))
    if len(K) == 2:
        r.ob(not set(K["absolute"]) & set(K["relative"]), "keys-differ", "both encodings are annotated under the same name %s" % K["absolute"])
    seps = set()
    for m in ("absolute", "relative"):
        k = body(p, r"TryFromConllx>::try_from_conllx_with_%s_encoding$" % m)
        where0 = p.bodies[k]["path"]
        h = Capture(("push", "minsert"))
        e, ex = run(p, k, h)
        reads = []
        keys = set()
        for name, d, facts, where, e2, st in h.got:
            for t in list(d.values()) + list(facts):
                for y in subterms(t):
                    if y.op == "mget" and y.a[1].op == "str" and any(z.op == "app" and z.a[0] == "Token::features" for z in subterms(y.a[0])):
                        keys.add(y.a[1].a[0])
            if name != "push":
                continue
            x = strip_ver(d["x"])
            if x.op == "agg" and x.a[0] == R.t_key:
                word(r, p, x, where)
            if x.op == "tup" and len(x.a[0] if isinstance(x.a[0], tuple) else x.a) == 2:
                pair = x.a[0] if isinstance(x.a[0], tuple) else x.a
                reads.append((pair[0], pair[1], facts, where))
        if m in K:
            for kk in sorted(keys):
                r.ob(kk in K[m], "reader:%s:key" % m, "the reader of the %s encoding reads feature %r, which the %s annotation does not write (it writes %s)" % (m, kk, m, K[m]), where0)
            r.ob(bool(keys) or not h.got, "reader:%s:no-key" % m, "the reader of the %s encoding reads no feature" % m, where0)
        for nm, a, where in h.calls:
            if nm == "restore_unary_chains" and a is not None and a.op == "str":
                seps.add(("restore", a.a[0], where))
        for name, d, facts, where, e2, st in h.got:
            if name == "minsert":
                for y in subterms(d["v"]):
                    if y.op == "find" and isinstance(y.a[2], Term) and y.a[2].op in ("str", "char"):
                        seps.add(("cut", str(y.a[2].a[0]), where))
        if m in shapes:
            agree(r, p, m, shapes[m], reads, where0)
    # the joint between a chain and a label
    joints = set()
    for m in ("absolute", "relative"):
        k = body(p, r"Encode>::annotate_%s$" % m)
        h = Capture(("minsert",))
        run(p, k, h)
        for _, d, facts, where, e, st in h.got:
            for y in subterms(d["v"]):
                if y.op == "star":
                    for z in y.a:
                        if z.op == "str":
                            joints.add(z.a[0])
                if y.op == "cat":
                    xs = y.a
                    for a, b, c2 in zip(xs, xs[1:], xs[2:]):
                        if b.op == "str" and a.op == "fld" and kind(a) == "LC" and c2.op == "fld" and kind(c2) == "L":
                            joints.add(b.a[0])
    if joints:
        r.count("chain joints", len(joints))
        for what, s, where in sorted(seps):
            r.ob(s in joints, "joint:%s" % what, "chains are joined to labels with %s, but taken apart with %r (%s)" % (sorted(joints), s, what), where)
    return K


def word(r, p, x, where):
    R = p.R
    f = x.a[2]

    def apps(t):
        return {y.a[0] for y in subterms(t) if y.op == "app" and y.a[0].startswith("Token::")}
    a = apps(f[R.t_form])
    r.ob(not a or "Token::form" in a, "reader:word:form", "the words of the tree are read from %s" % sorted(a), where)
    a = apps(f[R.t_pos])
    r.ob(not a or "Token::pos" in a, "reader:word:pos", "the part-of-speech tags of the tree are read from %s" % sorted(a), where)


def agree(r, p, m, shapes, reads, where0):
    """every tag the annotation writes is taken apart into the parts it was made of"""
    cand = []
    for a, c, facts, where in reads:
        xs = {y for t in [a, c] + list(facts) for y in subterms(t) if y.op == "fld" and y.a[0].op == "mget" and y.a[0].a[1].op == "str"}
        cand.append((a, c, facts, where, xs))
    X = set()
    for x in cand:
        X |= x[4]
    if not any(x[4] for x in cand):
        r.count("readers whose tags are taken apart in an undecided way")
        return
    decided = 0
    for (key, toks), where in sorted(shapes.items(), key=lambda z: repr(z[0])):
        if "?" in toks:
            r.count("tag shapes of undecided parts")
            continue
        none = ("W", "NONE") in toks or not any(t in ("L", "N") for t in toks)
        chain = "C" in toks
        results = []
        for a, c, facts, w, xs in cand:
            for x in xs or X:
                if x.a[0].a[1].a[0] != key and xs:
                    continue
                sp = Split(x, toks)
                if any(sp.fact(k, v) is False for k, v in facts.items()):
                    continue
                res = part(sp, a), part(sp, c)
                if None in res and not (xs & set(subterms(T("tup", (a, c))))):
                    continue
                results.append(res)
        want_a = "none" if none else tuple(t for t in ("L", "N") if t in toks)
        want_c = ("C",) if chain else "none"
        if any(None in x for x in results) and (want_a, want_c) not in results:
            r.count("tag shapes of undecided reading")
            continue
        decided += 1
        txt = "".join(t if isinstance(t, str) else t[1] for t in toks)
        r.ob((want_a, want_c) in results, "tags:%s" % m, "the %s annotation can write a tag of the form %s, which its reader takes apart as %s" % (
            m, txt.replace("L", "<label>").replace("N", "<n>", 1) if not none else txt, sorted(map(str, set(results))) or "an error"), where0)
    r.count("tag shapes compared (%s)" % m, decided)


def part(sp, t):
    """what a part of the pair is on this tag: "none", tokens in the order label, number, or None"""
    x = payload(t)
    if x is None:
        s = sp.of(t)
        return s if isinstance(s, tuple) else None
    if x == "none":
        return "none"
    if x.op == "agg":
        lab, num = None, ()
        for f in x.a[2]:
            ps = [y for y in subterms(f) if y.op == "parse"]
            if len(ps) == 1:
                s = sp.of(ps[0].a[0])
                if s is None:
                    return None
                num = s if isinstance(s, tuple) else ("error",)
            elif f.op == "int":
                num = ()
            else:
                s = sp.of(f)
                if s is None:
                    return None
                lab = s if isinstance(s, tuple) else ("error",)
        return (lab or ()) + num
    s = sp.of(x)
    return s


@check("C19", "abstract interpretation of the CoNLL-X conversions: every produced token is traced column by column to the word it is made for, every drawn word to "
       "one token; symbolic composition of the tag text the annotations write with the splitting the readers do",
       "static-proof-modulo-models",
       "Covers the three conversions (by value, by reference, through the writer), the word conversion, both annotations and both tag readers. Labels are assumed "
       "to be free of the separators (the format offers no escape). Terms the analysis cannot decide are counted, not reported.")
def c19(r):
    p = r.p
    R = p.R
    r.rule("every token has form, lemma, tag and features of one and the same word, each in its own column; every word drawn gets exactly one token and no filter, "
           "skip or take leaves a word out; the annotation's feature name is the one its reader reads; each tag shape written is split by the reader into the label, "
           "number and chain it was made of; chains are joined and cut with the same delimiter")
    tk = Tokens(r, p)
    kt = body(p, r"From<&'a? ?node::Terminal> for conllx::token::Token>::from$|From<&'?_? ?node::Terminal> for conllx::token::Token>::from$")
    e, ex = run(p, kt, Words(r, p, tk))
    for v, st in ex:
        S = tk.token(e, st, v, p.bodies[kt]["path"])
        r.count("word conversion paths")
    for rx in (r"From<tree::Tree> for conllx::graph::Sentence>::from$", r"From<&'\w+ tree::Tree> for conllx::graph::Sentence>::from$", r"ToConllx>::to_conllx$"):
        for k in [k for k, b in p.bodies.items() if re.search(rx, b["path"]) and "{closure" not in k]:
            sentence(r, p, tk, k)
            r.count("conversions")
    # the writer hands the converted tree on
    kw = body(p, r"WriteTree for conllx::io::Writer<W>>::write_tree$")
    h = Sent(r, p, tk)
    run(p, kw, h)
    r.ob(h.n >= 1, "writer:sentence", "the CoNLL-X writer never writes a sentence", p.bodies[kw]["path"])
    r.count("tokens checked", tk.checked)
    r.count("token obligations undecided", tk.undecided)
    encodings(r, p)
    r.floor("conversions", r.counts.get("conversions", 0), 3)
    r.floor("tokens checked", tk.checked, 3)


class Sent(Words):
    def __init__(self, r, p, tk):
        Words.__init__(self, r, p, tk)
        self.n = 0

    def on_call(self, e, st, key, info, args, fr, line):
        if info["path"].endswith("WriteSentence::write_sentence"):
            self.n += 1
            v = e.deep(st, args[1])
            if v.op == "ref":
                v = e.deep(st, e.load(st, *v.a))
            self.r.ob(fromtree(v), "writer:from-tree", "the sentence written is not made from the tree", loc(fr, line))
        return None
