"""C16: brackets inside words and labels never reach bracketed output raw."""
import re
from rt import *
from terms import *
import engine, models

BOTH = frozenset("()")
NONE_ = frozenset()
STRINGY = re.compile(r"^(&('\w+ )?(mut )?)*(str|(alloc::string::)?String|char|(core::option::)?Option<&?('\w+ )?(str|(alloc::string::)?String)>)$")


class Bracket(Hooks):
    """records what is recursive, and names the text it returns"""
    def __init__(self, p):
        self.p = p
        self.calls = {}      # recursive key -> list of (args, entry?) of every call
        self.rec = set()
        self.writes = []
        self.clean = {}      # (key, i) -> may the text parameter carry raw brackets
        self.probing = False

    def on_call(self, e, st, key, info, args, fr, line):
        if not key or key not in self.p.bodies or "{closure" in key:
            return None
        if e.in_stack(fr, key) or self.probing and key in self.rec:
            self.rec.add(key)
            self.calls.setdefault(key, []).append((tuple(e.deep(st, a) for a in args), st))
            b = self.p.bodies[key]
            t = T("app", "rec:" + key)
            for i, a in enumerate(args):
                ty = b["T"][b["locals"][i + 1]]
                if ty["k"] == "ref" and ty.get("mut") and a.op == "ref":
                    old = e.val(st, a)
                    if ty["s"].endswith("String"):
                        e.store(st, a.a[0], a.a[1], models.cat(old, t), fr, line, quiet=True)
                    else:
                        e.havoc(st, a, fr, getattr(e, "cur_block", 0), line, "rec%d" % i)
            out = b["T"][b["locals"][0]]["s"]
            if "Result<" in out:
                return [(ok(t), st.copy()), (err(T("sym", "recerr")), st)]
            return [(t, st)]
        self.calls.setdefault(key, []).append((tuple(e.deep(st, a) for a in args), st))
        return None

    def on_event(self, e, st, name, args, fr, line):
        if name == "write":
            self.writes.append((e.deep(st, args["v"]), args["w"], st.copy(), loc(fr, line)))


class Raw(object):
    """which brackets of tree text may occur unreplaced in a string term"""
    def __init__(self, e, h, key):
        self.e, self.h, self.key = e, h, key
        self.params = {}
        self.why = []
        self.n = 0
        self.depth = 0
        self.memo = {}

    def go(self, t, st):
        k = (t, id(st))
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = NONE_
        r = self.memo[k] = self.go_(t, st)
        return r

    def lit(self, t):
        return frozenset(c for c in str(t.a[0]) if c in "()")

    def pattern(self, a, st):
        """brackets a replace pattern covers"""
        if a.op in ("str", "char"):
            return frozenset(a.a[0]) & BOTH if len(a.a[0]) == 1 else NONE_
        if a.op == "agg" or a.op == "tup" or a.op in ("array", "cv"):
            xs = a.a[2] if a.op == "agg" else (a.a[0] if a.op == "tup" else [x for y in a.a if isinstance(y, Term) for x in (y.a if y.op == "elems" else (y,))])
            r = NONE_
            for x in xs:
                if isinstance(x, Term) and x.op == "char":
                    r |= frozenset(x.a[0]) & BOTH
            return r
        if a.op == "ref":
            return self.pattern(self.e.val(st, a), st)
        if a.op in ("closure", "fnptr"):
            r = NONE_
            for ch in "()":
                fr = self.e.new_frame(self.key, None, 0, "pat")
                try:
                    rs = self.e.call_value(fr, 0, st.copy(), a, [T("char", ch)], 0, "pat")
                except Exception:
                    return NONE_
                if rs and all(self.e.evalb(s, v) is True for v, s in rs):
                    r |= {ch}
            return r
        return NONE_

    def go_(self, t, st):
        o = t.op
        if o in ("str", "char"):
            return NONE_          # literals of the formatter are structure
        if o in ("int", "bool", "uninit"):
            return NONE_
        if o == "ref":
            return self.go(self.e.val(st, t), st)
        if o == "replace":
            v, a, b = t.a
            cov = self.pattern(a, st)
            self.n += 1
            return (self.go(v, st) - cov) | (self.lit(b) if b.op == "str" else self.go(b, st) | BOTH)
        if o == "sans":
            return self.go(t.a[0], st) - frozenset(t.a[1])
        if o in ("cat", "star"):
            r = NONE_
            for x in t.a:
                r |= self.go(x, st)
            return r
        if o == "joined":
            sep, it = t.a[0], t.a[1]
            return self.go(sep, st) | self.items(it, st, t.a[2:])
        if o in ("padded",):
            return self.go(t.a[0], st)
        if o == "disp":
            if re.search(r"(usize|isize|u8|u32|u64|i32|i64|bool)$", str(t.a[0])):
                return NONE_
            return self.go(t.a[1], st)
        if o == "rep":
            return self.go(t.a[1], st)
        if o == "app":
            nm = str(t.a[0])
            if nm.startswith("rec:"):
                return NONE_
            if re.match(r"^str::(trim|trim_end|trim_start|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase)$", nm):
                return self.go(t.a[1], st)
            if nm == "strof" and isinstance(t.a[1], Term):
                return self.items(t.a[1], st, ())
            return BOTH
        if o == "strof":
            return self.items(t.a[0], st, ())
        if o == "coll":
            return self.items(t.a[0], st, ())
        if o == "cv":
            return self.items(T("it", "cv", t), st, ())
        if o == "fld" and t.a[0].op == "sym" or o == "sym":
            s = t if o == "sym" else t.a[0]
            if s in self.params:
                return self.params[s]
        if o == "el" and t.a[0].op == "it" and t.a[0].a[0] == "split":
            return self.go(t.a[0].a[1], st) - self.pattern(t.a[0].a[2], st)
        if o == "piece" and str(t.a[0]) in ("split", "splitn"):
            return self.go(t.a[1], st) - self.pattern(t.a[2], st)
        if o == "lin":
            return NONE_
        return self.lacks(t, st)

    def lacks(self, t, st):
        """brackets the path has not excluded by a test of the text"""
        r = set(BOTH)
        for f, truth in st.facts.items():
            if truth is False and f.op == "app" and f.a[0] == "str::contains" and f.a[1] is t:
                r -= self.pattern(f.a[2], st)
        return frozenset(r)

    def items(self, it, st, skel):
        """text of the elements of an iterator"""
        r = NONE_
        if skel and models.ANY not in skel:
            for x in skel:
                r |= self.go(x, st)
            if not r:
                return r
            r = NONE_
        self.h.probing = True
        c = engine.Ctx(self.e, self.e.new_frame(self.key, None, 0, "items"), 0, {"path": "", "args": []}, [], [], 0)
        any_ = False
        if self.depth > 3:
            return BOTH
        self.depth += 1
        try:
            for x, s, _ in models.draw(c, st.copy(), it, "items"):
                if x is None:
                    continue
                any_ = True
                x = self.e.val(s, x)
                r |= self.go(models.restrict(self.e, s, x), s)
        except engine.Dead:
            pass
        finally:
            self.depth -= 1
        if not any_ and not skel:
            return BOTH
        if not any_:
            for x in skel:
                r |= self.go(x, st)
        return r


def text_params(p, k):
    b = p.bodies[k]
    out = []
    for i in range(b["argc"]):
        ty = b["T"][b["locals"][i + 1]]["s"]
        if STRINGY.match(ty):
            out.append(i)
    return out


def payload(e, s, v, ty):
    """text value(s) a function hands back"""
    if ty.startswith("core::result::Result<") or "Result<" in ty:
        if is_ok(e, s, v) is False:
            return None
        return e.proj(v, ("f", 0, 0))
    return v


@check("C16", "taint dataflow over string-building terms (typed MIR): sources are all text drawn from the tree, sanitisers are replacements of both brackets, sinks are the bracket formatter's results and writes", "other",
       "Text returned by a recursive formatter call is clean by induction over the height of the tree; the induction step is the same check on the recursive function itself.")
def c16(r):
    p = r.p
    r.rule("In every string the bracketed writer returns or writes, each piece that originates from the tree passed through a replacement of '(' and of ')' by text without brackets after it was put together; literal pieces are structure")
    ent = body(p, r"^io::ptb::PTBFormat::tree_to_string$")
    wr = body(p, r"^<io::ptb::PTBWriter<.*> as io::WriteTree>::write_tree$")
    h = Bracket(p)
    todo = [(ent, "result"), (wr, "write")]
    done = set()
    dirty = {}     # (key, param) -> raw set assumed
    strings = 0
    rounds = 0
    while rounds < 6:
        rounds += 1
        changed = False
        viol = {}
        strings = 0
        reps = 0
        work = list(todo)
        seen = set()
        while work:
            k, mode = work.pop(0)
            if (k, mode) in seen:
                continue
            seen.add((k, mode))
            b = p.bodies[k]
            h = Bracket(p)
            init = {}

            def setup(e, st, vals):
                pass
            e, exits = run(p, k, h)
            syms = {}
            names = param_syms(p, k)
            raw = Raw(e, h, k)
            for i in text_params(p, k):
                raw.params[names[i]] = dirty.get((k, i), NONE_) if mode == "rec" else BOTH
            mutstr = [i for i in range(b["argc"]) if re.match(r"^&('\w+ )?mut (alloc::string::)?String$", b["T"][b["locals"][i + 1]]["s"])]
            for i in mutstr:
                raw.params[names[i]] = NONE_
            ty = b["T"][b["locals"][0]]["s"]
            where = "%s:%s" % (b["file"], b["line"])

            def judge(t, s, what, where):
                left = raw.go(t, s)
                for ch in "()":
                    r_key = "%s:%s:%s" % (what, "open" if ch == "(" else "close", b["path"].split("::")[-1])
                    if ch in left:
                        viol[r_key] = ("bracketed output of %s can contain text of the tree with a raw '%s': %s" % (b["path"], ch, show(t)[:300]), where)
                return left
            if mode in ("result", "rec") and re.search(r"String|str\b", ty):
                for v, s in exits:
                    t = payload(e, s, e.deep(s, v), ty)
                    if t is None:
                        continue
                    strings += 1
                    judge(t, s, "result", where)
            for i in mutstr:
                for v, s in exits:
                    strings += 1
                    judge(e.deep(s, e.load(s, T("P", names[i].a[0]))), s, "param%d" % i, where)
            for t, w, s, at in h.writes:
                strings += 1
                judge(t, s, "write", at)
            reps += raw.n
            # what the recursive functions are called with
            for kk in h.rec:
                for args, s in h.calls.get(kk, []):
                    for i in text_params(p, kk):
                        if i in [j for j in range(len(args))]:
                            v = args[i]
                            vv = v
                            if v.op == "agg" and v.a[0] == OPT:
                                if v.a[1] == 0:
                                    continue
                                vv = v.a[2][0]
                            left = raw.go(vv, s)
                            cur = dirty.get((kk, i), NONE_)
                            if left - cur:
                                dirty[(kk, i)] = cur | left
                                changed = True
                work.append((kk, "rec"))
        if not changed:
            break
    for k, (m, w) in viol.items():
        r.bad(k, m, w)
    r.obs += 2 * strings
    r.ok += 2 * strings - len(viol)
    r.count("recursive_formatters", len([1 for k, m in seen if m == "rec"]))
    r.sample("functions judged: %s" % sorted("%s(%s)" % (p.bodies[k]["path"], m) for k, m in seen))
    r.sample("text parameters that carry raw tree text: %s" % sorted("%s#%d" % (p.bodies[k]["path"], i) for k, i in dirty))
    r.floor("output_strings", strings, 6)
    r.count("replacements_seen", reps)


def param_syms(p, k):
    from c_compare import params
    return [T("sym", x.a[0]) for x in params(p, k)]
