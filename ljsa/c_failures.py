"""C04: no failure is swallowed."""
import re
from rt import *
from terms import *
import engine, models
from c_guard import is_result
from c_conllx import ctx, strip_ver
from c_main import FLAGS, optname

NONE_FAIL = ("split", "splitn", "ws", "rsplit", "rsplitn")


def column(it):
    """number of the next field of a line split at whitespace"""
    k = it.a[-1]
    return k if isinstance(k, int) and k >= 0 else None


class Failures(Hooks):
    """ghost state: the failures met on this path (where a Result turned out to be Err)"""
    cap, exitcap = 60, 80

    def __init__(self, r, p, name, fields=False):
        self.r, self.p, self.name, self.fields = r, p, name, fields
        self.bad = {}
        self.births = set()
        self.exited = set()

    def join_ps(self, a, b):
        return (a or frozenset()) | (b or frozenset())

    def ps_key(self, ps):
        return bool(ps)

    def born(self, st, what, where):
        self.births.add((what, where))
        st.ps = (st.ps or frozenset()) | {(what, where)}

    def on_fail(self, e, st, v, fr, line):
        if self.infallible(v):
            return
        if not st.ps:
            self.born(st, "a failure", loc(fr, line))

    def infallible(self, v):
        return False

    def on_assume(self, e, st, cond, truth, fr, line):
        if self.fields and isinstance(cond, Term) and cond.op == "discr" and truth == 0 and e.dsckey.get(cond.a[0]) != RES and self.encoding(cond.a[0]):
            self.born(st, "a missing encoding", loc(fr, line))
        if isinstance(cond, Term) and cond.op == "discr" and truth == 1 and e.dsckey.get(cond.a[0]) == RES:
            self.born(st, "a failure", loc(fr, line))
        return None

    def encoding(self, v):
        """the features of a token, or the value of one of them"""
        v = strip_ver(v)
        if v.op == "optof":
            v = strip_ver(v.a[0])
        while v.op == "fld":
            v = strip_ver(v.a[0])
        if v.op == "app":
            return v.a[0] == "Token::features"
        return v.op == "mget" and any(x.op == "app" and x.a[0] == "Token::features" for x in subterms(v))

    def on_draw(self, e, st, it, x, c):
        if it.op == "it" and it.a[0] in ("lines", "sentences") and isinstance(x, Term):
            e.dsckey.setdefault(x, RES)

    def on_skip(self, e, before, st, fr, line):
        new = (st.ps or frozenset()) - (before.ps or frozenset())
        if new:
            self.bad.setdefault("skipped:%s" % fr.body["path"], ("an element whose processing failed is left out of the sequence", loc(fr, line)))

    def on_event(self, e, st, name, args, fr, line):
        if name == "exhausted" and self.fields and args["it"].op == "it" and args["it"].a[0] in NONE_FAIL:
            b = args.get("b")
            it = args["it"]
            if not (it.a[0] == "ws" and column(it) is not None and column(it) < 6) and not ("bsolute" in self.name and it.a[0] == "split" and it.a[2] == T("str", "+") and column(it) == 1):
                return None
            if b is not None and not any(b in bl for bl in e.p.cfg(fr.key).heads.values()) and args.get("next"):
                self.born(st, "a missing field", loc(fr, line))
        elif name == "dropped":
            v = e.deep(st, args["v"])
            if v.op == "agg" and v.a[0] == RES or e.dsckey.get(v) == RES:
                self.bad.setdefault("dropped:%s" % fr.body["path"], ("the outcome of a step that can fail is thrown away", loc(fr, line)))
        elif name == "exit":
            self.exited.add(loc(fr, line))
            code = args["code"]
            code = e.deep(st, code) if code is not None else None
            if code is not None and code.op == "int" and code.a[0] % 256 == 0:
                if st.ps:
                    self.bad.setdefault("exit-status:%s" % fr.body["path"], ("the run ends with exit status 0 after a failure", loc(fr, line)))
                elif args.get("failing"):
                    self.bad.setdefault("exit-status:%s" % fr.body["path"], ("a failure ends the run with exit status 0", loc(fr, line)))
            if not args.get("failing") and st.ps and not any(x[0] == "printed" for x in st.ps):
                self.bad.setdefault("exit-message:%s" % fr.body["path"], ("the run ends after a failure without a message", loc(fr, line)))
        elif name == "print" and st.ps:
            st.ps = st.ps | {("printed", "")}
        return None

    # -- what the caller sees
    def exits(self, e, exits, key):
        p = self.p
        b = p.bodies[key]
        c = ctx(e, key)
        for v, st in exits:
            if st.ps and not self.is_failure(e, st, v):
                what = sorted(x for x in st.ps if x[0] != "printed")
                self.bad.setdefault("swallowed:%s:%s" % (self.name, what[0][1].split(" in ")[-1]), ("%s can return normally although %s was met" % (self.name, what[0][0]), what[0][1]))
            w = e.deep(st, v)
            its = [w] if w.op in ("it", "cv", "coll") else []
            if w.op == "agg" and w.a[0] in (RES, OPT) and w.a[2] and w.a[2][0].op in ("it",):
                its = [w.a[2][0]]
            for w in its:
                if w.op != "it":
                    continue
                for x, s, _ in models.draw(c, st.copy(), models.as_it(e, st, w), "out"):
                    if s.ps and s.ps != st.ps and not (x is not None and self.is_failure(e, s, some(x) if x is not None else NONE)):
                        what = sorted(y for y in s.ps if y[0] != "printed")
                        self.bad.setdefault("swallowed:%s:%s" % (self.name, what[0][1].split(" in ")[-1]), ("%s yields an ordinary element although %s was met" % (self.name, what[0][0]), what[0][1]))

    def is_failure(self, e, st, v):
        w = v
        for _ in range(4):
            w = e.val(st, w)
            if w.op == "agg" and w.a[0] == RES:
                return w.a[1] == 1 or bool(w.a[2]) and w.a[2][0].op == "agg" and self.is_failure(e, st, w.a[2][0])
            if w.op == "agg" and w.a[0] == OPT:
                if w.a[1] == 0 or not w.a[2]:
                    return False
                w = w.a[2][0]
                continue
            break
        return e.dsckey.get(w) == RES and e.discr(st, w) == 1


class MainFailures(Failures):
    """the tool: library operations are not entered, each can fail"""
    on, inf, outf = (), "negra", "negra"

    def on_call(self, e, st, key, info, args, fr, line):
        p = self.p
        nm = e.m.short(info["path"])
        b = p.bodies.get(key)
        if nm in ("ReadSentence::read_sentence",):
            x = T("fresh", fr.fid, 0, "rs%d" % line)
            s2 = st.copy()
            s3 = st.copy()
            self.born(s2, "a missing sentence", loc(fr, line))
            return [(ok(some(T("app", "sentence", x))), st), (ok(NONE), s2), (err(T("app", "failed", x)), s3)]
        if nm == "ArgMatches::is_present":
            return [(TRUE if optname(args[1]) in self.on else FALSE, st)]
        if nm in ("ArgMatches::value_of", "ArgMatches::value_of_os", "ArgMatches::value_of_lossy"):
            n = optname(args[1])
            if n == "IN_FORMAT":
                return [(some(T("str", self.inf)), st)]
            if n == "OUT_FORMAT":
                return [(some(T("str", self.outf)), st)]
            if n in FLAGS and n not in self.on:
                return [(NONE, st)]
            return [(some(T("app", "opt", n)), st)]
        if info.get("name") in ("write_tree",) or (b is not None and b["crate"] == "lumberjack" and "{closure" not in key):
            res = is_result(p, b) if b is not None and b.get("output") is not None else info.get("name") == "write_tree"
            if b is not None and re.search(r"LabelSet|::matches$", b["path"]):
                return None
            v = T("app", ("res:" if res else "op:") + info.get("name", "?"), T("fresh", fr.fid, 0, "%s%d" % (info.get("name"), line)))
            if res:
                e.dsckey[v] = RES
                self.r.count("fallible calls of the tool")
            if b is not None and not res and b.get("output") is not None and b["T"][b["output"]]["k"] in ("ref",):
                return None
            if b is not None and not res and not any((b["T"][i].get("key") == p.R.tree_key) or (b["T"][i]["k"] == "ref" and b["T"][b["T"][i]["to"]].get("key") == p.R.tree_key) for i in b.get("inputs") or []):
                return None
            return [(v, st)]
        return None


# ------------------------------------------------------------------ results never looked at
def ops_of(r):
    """operands and places read by an rvalue"""
    out = []
    for x in r[1:]:
        if isinstance(x, list):
            if x and x[0] in ("cp", "mv") and len(x) == 2:
                out.append(x[1])
            elif len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                out.append(x)
            elif r[0] == "agg":
                for y in x:
                    if isinstance(y, list) and y and y[0] in ("cp", "mv"):
                        out.append(y[1])
    return out


def looked_at(b):
    """locals whose value is read by something other than a copy into a local nobody reads"""
    copies = {}
    used = {0}

    def use(pl):
        used.add(pl[0])
        for x in pl[1]:
            if x != "*" and x[0] == "i":
                used.add(x[1])
    for bl in b["blocks"]:
        for s in bl["s"]:
            if s[0] == "=":
                if s[1][1]:
                    use(s[1])
                    for pl in ops_of(s[2]):
                        use(pl)
                elif s[2][0] in ("use", "cast"):
                    for pl in ops_of(s[2]):
                        if pl[1]:
                            use(pl)
                        else:
                            copies.setdefault(s[1][0], set()).add(pl[0])
                else:
                    for pl in ops_of(s[2]):
                        use(pl)
            elif s[0] == "setdiscr":
                use(s[1])
        t = bl["t"]
        if t[0] in ("switch", "assert") and t[1][0] in ("cp", "mv"):
            use(t[1][1])
        if t[0] == "call":
            for x in [t[1]] + list(t[2]):
                if x[0] in ("cp", "mv"):
                    use(x[1])
            if t[3][1]:
                use(t[3])
    changed = True
    while changed:
        changed = False
        for d, ss in copies.items():
            if d in used:
                for x in ss:
                    if x not in used:
                        used.add(x)
                        changed = True
    return used


def unread(r, p):
    n = 0
    for k, b in sorted(p.bodies.items()):
        if b["crate"] not in ("lumberjack", "lumberjack_conversion", "lumberjack-conversion"):
            continue
        used = None
        for bl in b["blocks"]:
            t = bl["t"]
            if t[0] != "call":
                continue
            pl = t[3]
            if pl[1]:
                continue
            ty = b["T"][b["locals"][pl[0]]]
            if ty.get("key") != RES:
                continue
            n += 1
            if used is None:
                used = looked_at(b)
            if pl[0] in used:
                r.ob(True, "", "")
                continue
            if t[1][0] == "fn" and re.search(r"Write::write_(fmt|str|char)$", t[1][1]["path"]) and t[2] and t[2][0][0] in ("cp", "mv") and \
                    not t[2][0][1][1] and b["T"][b["locals"][t[2][0][1][0]]]["s"].endswith("string::String"):
                continue        # cannot fail
            r.ob(False, "unread:%s" % b["path"], "the outcome of a step that can fail is never looked at", "%s:%s in %s" % (b["file"], t[-1] if isinstance(t[-1], int) else b["line"], b["path"]))
    r.count("fallible calls", n)


RAWIO = re.compile(r"(?<!fmt::)(io::(\w+::)*Write::write|Write>::write)$")
BUFFERED = re.compile(r"(BufWriter|LineWriter)(::<.*>)?::(new|with_capacity)$")
FLUSH = re.compile(r"(Write::flush|Write>::flush|(BufWriter|LineWriter)(::<.*>)?::into_inner)$")
LOSSY = re.compile(r"from_utf8_lossy|to_string_lossy|value_of_lossy")


def io_calls(r, p):
    buffered, flushed = [], False
    for k, b in sorted(p.bodies.items()):
        for bl in b["blocks"]:
            t = bl["t"]
            if t[0] != "call" or t[1][0] != "fn":
                continue
            path = t[1][1]["path"]
            w = "%s in %s" % (b["file"], b["path"])
            if RAWIO.search(path) and not (b.get("impl_trait") or "").endswith("Write"):
                r.ob(False, "partial-write:%s" % b["path"], "a write that may store only part of the text is used as if it stored all of it", w)
            if BUFFERED.search(path):
                buffered.append((b["path"], w))
            if FLUSH.search(path):
                flushed = True
            if LOSSY.search(path):
                r.ob(False, "lossy:%s" % b["path"], "text that cannot be decoded is replaced instead of being reported", w)
    for n, w in buffered:
        r.ob(flushed, "unflushed:%s" % n, "output is buffered and never flushed: failures of the last writes are lost", w)


READERS = r"Ancestor as .*TryFrom<.*>::try_from$|TryFromConllx>::try_from_conllx_with_\w+$|NegraReader<.*> as .*Iterator>::next$|PTBReader<.*> as .*Iterator>::next$"


@check("C04", "path-sensitive failure tracking over MIR (interprocedural abstract interpretation: every branch on a failed Result must reach an error return, a panic or a failing exit) "
              "and unread-Result dataflow", "other",
       "Failures are values of type Result (and missing fields of NEGRA lines); panics count as reported. Library calls of the tool are taken to fail or succeed freely. "
       "Documented repairs (ConversionResult, Option-valued queries) are not failures.")
def c04(r):
    p = r.p
    r.rule("Every path on which a Result is found to be Err returns Err (or Some(Err)) to the caller of the public operation, panics, or exits with a message and a non-zero status")
    r.rule("No Result of a call is left unread; no element whose processing failed is filtered out of a sequence; no partial or unflushed write")
    unread(r, p)
    io_calls(r, p)
    births, exited = set(), set()
    n = 0
    for k in lib_exports(p):
        b = p.bodies[k]
        h = Failures(r, p, b["path"], bool(re.search(READERS, b["path"])))
        e, ex = run(p, k, h)
        h.exits(e, ex, k)
        n += 1
        births |= h.births
        report(r, h)
        if h.births:
            r.sample("%s: failures met at %s" % (b["path"], ", ".join(sorted(x[1].split(" in ")[0] for x in h.births))[:160]))
    for k, b in sorted(p.bodies.items()):
        if b["crate"] == "lumberjack" or "{closure" in k or b.get("derived"):
            continue
        jobs = [((), "negra", "negra")]
        if b["path"] == "main":
            jobs = [(c, "negra", o) for o in ("negra", "absolute", "relative", "ptb") for c in ((), tuple(FLAGS))] + \
                   [(c, i, "simple") for i in ("absolute", "relative", "ptb", "simple", "tueba") for c in ((),)] + [((f,), "ptb", "conllx") for f in FLAGS]
        for on, inf, outf in jobs:
            h = MainFailures(r, p, b["path"])
            h.on, h.inf, h.outf = on, inf, outf
            e, ex = run(p, k, h)
            h.exits(e, ex, k)
            births |= h.births
            exited |= h.exited
            n += 1
            report(r, h)
    r.count("failing exits of the tool", len(exited))
    for w in {x[1] for x in births}:
        r.ob(True, "", "")
    r.floor("operations", n, 60)
    r.floor("places where a failure is met", len(births), 20)
    r.floor("fallible calls", r.counts.get("fallible calls", 0), 60)
    r.floor("failing exits of the tool", r.counts.get("failing exits of the tool", 0), 8)


def report(r, h):
    for key, (msg, where) in sorted(h.bad.items()):
        r.ob(False, key, msg, where)
