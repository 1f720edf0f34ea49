"""C08, C09: the command line tool applies the requested steps, reads and writes the requested formats."""
import itertools, multiprocessing, os, re
from rt import *
from terms import *

FLAGS = ["REMOVE_DUMMIES", "PROJECTIVIZE", "SEC_EDGES", "ANNOTATE_POS", "REATTACH", "ID_SET", "FILTER_SET", "INSERTION_SET", "PARENT"]
VALUED = {"ANNOTATE_POS", "REATTACH", "ID_SET", "FILTER_SET", "INSERTION_SET", "PARENT"}


def opt(n):
    return T("app", "opt", n)


def main_key(p):
    c = [k for k, b in p.bodies.items() if b["path"] == "main" and b["crate"] != "lumberjack"]
    if len(c) != 1:
        raise Anchor("main of the conversion tool")
    return c[0]


def is_tree_ref(p, b, ty):
    t = b["T"][ty]
    return t["k"] == "ref" and b["T"][t["to"]].get("key") == p.R.tree_key


def tree_item(T_, ty, key):
    t = T_[ty]
    if t.get("key") == key:
        return True
    return any(isinstance(x, int) and tree_item(T_, x, key) for x in t.get("args", []) or [])


class MainHooks(Hooks):
    """flags are concrete, input and trees symbolic; library operations are recorded, not entered"""

    def __init__(self, p, on, inf, outf, multi=False):
        self.p = p
        self.on = on
        self.inf, self.outf, self.multi = inf, outf, multi
        self.problems = {}
        self.readers = []
        self.writers = []
        self.ops = 0
        self.finished = 0
        self.probing = 0
        self.n = 0

    # ps: (tree item, tuple of steps) or None before the first record
    def ps_key(self, ps):
        return ps

    def ps_atoms(self, ps):
        return ps[0].atoms if ps and isinstance(ps[0], Term) else ()

    def ps_subst(self, ps, m):
        return ps

    def join_ps(self, a, b):
        return a

    def bad(self, key, msg, fr, line):
        self.problems.setdefault(key, (msg, loc(fr, line)))

    def step(self, st, s):
        it, seq = st.ps if st.ps else (None, ())
        if not (s == "add_secondary_edge" and seq and seq[-1] == s):
            seq = seq + (s,)
        if len(seq) > 40:
            seq = seq[:40]
        st.ps = (it, seq)

    def on_call(self, e, st, key, info, args, fr, line):
        p = self.p
        nm = e.m.short(info["path"])
        if nm == "ArgMatches::is_present":
            n = optname(args[1])
            if n == "MULTILINE":
                return [(TRUE if self.multi else FALSE, st)]
            return [(TRUE if n in self.on else FALSE, st)]
        if nm in ("ArgMatches::value_of", "ArgMatches::value_of_os", "ArgMatches::value_of_lossy"):
            n = optname(args[1])
            if n == "IN_FORMAT":
                return [(some(T("str", self.inf)), st)]
            if n == "OUT_FORMAT":
                return [(some(T("str", self.outf)), st)]
            if n in FLAGS and n not in self.on:
                return [(NONE, st)]
            return [(some(opt(n)), st)]
        if nm == "ReadSentence::read_sentence" and args:
            if self.probing:
                return None
            self.step(st, "read_pos")
            v = e.deep(st, args[0])
            if not (contains(v, opt("ANNOTATE_POS"))):
                self.bad("pos-source", "part-of-speech sentences are not read from the file given for them", fr, line)
            self.n += 1
            return [(T("app", "pos_sentence", T("fresh", fr.fid, 0, "pos%d" % line)), st)]
        b = p.bodies.get(key)
        # the loop over the input
        if info.get("name") == "next" and args and (info.get("trait") or "").endswith("Iterator") and "conversion" in fr.key:
            ty = self.self_is_reader(e, fr, info)
            if ty:
                v = e.deep(st, args[0])
                self.readers.append(v)
                self.close(e, st, fr, line)
                s2 = st.copy()
                s2.ps = None if st.ps is None else ("done", ())
                self.n += 1
                item = T("fresh", fr.fid, 0, "tree%d" % line)
                st.ps = (item, ())
                return [(NONE, s2), (some(item), st)]
        if info.get("name") == "write_tree" and "conversion" in fr.key:
            self.writers.append(e.deep(st, args[0]))
            self.check_tree(e, st, args[1], "write_tree", fr, line)
            self.step(st, "write_tree")
            return [(T("app", "res:write_tree", T("fresh", fr.fid, 0, "w%d" % line)), st)]
        if b is None or b["crate"] != "lumberjack" or "{closure" in key or self.probing:
            return None
        if b.get("inputs") is None:
            return None
        i = [i for i, t in enumerate(b["inputs"]) if is_tree_ref(p, b, t)]
        if not i:
            if any(tree_item(b["T"], t, p.R.tree_key) for t in b["inputs"]):
                self.step(st, info.get("name"))
            return None
        i = i[0]
        t = b["T"][b["inputs"][i]]
        name = info.get("name")
        rv = T("app", "op:" + name, e.deep(st, args[i]))
        if t["mut"]:
            self.ops += 1
            self.check_tree(e, st, args[i], name, fr, line)
            self.step(st, name)
            self.check_args(e, st, name, args, i, fr, line)
            if name in ("index_mut",):
                return [(T("ref", T("P", "tree_part"), ()), st)]
            return [(T("app", "res:" + name, T("fresh", fr.fid, 0, "%s%d" % (name, line))), st)]
        if b["T"][b["output"]]["k"] == "ref":
            return None
        return [(rv, st)]

    def self_is_reader(self, e, fr, info):
        a = info.get("args") or []
        if not a or not isinstance(a[0], int):
            return False
        s = fr.body["T"][a[0]]["s"]
        return "Result<lumberjack::tree::Tree" in s and "dyn" in s or re.search(r"(PTBReader|NegraReader)<", s) is not None or "try_from_conllx" in s

    def check_tree(self, e, st, ref, name, fr, line):
        if not st.ps or not isinstance(st.ps[0], Term):
            self.bad("no-tree:" + name, "%s is applied outside the processing of a tree" % name, fr, line)
            return
        v = ref
        n = 0
        while v.op == "ref" and n < 8:
            v = e.load(st, v.a[0], v.a[1])
            n += 1
        want = e.proj(st.ps[0], ("f", 0, 0)) if False else None
        if not contains(e.deep(st, v), st.ps[0]):
            self.bad("other-tree:" + name, "%s is applied to something other than the tree being processed (%s)" % (name, show(v)[:120]), fr, line)

    def close(self, e, st, fr, line):
        """a record is finished: the next one is drawn or the run ends"""
        if not st.ps or not isinstance(st.ps[0], Term):
            return
        self.finished += 1
        self.check_seq(st.ps[1], fr, line)

    def check_seq(self, seq, fr, line):
        want = []
        on = self.on
        if "REMOVE_DUMMIES" in on:
            want.append("remove_dummy_nodes")
        if "PROJECTIVIZE" in on:
            want.append("projectivize")
        if "REATTACH" in on:
            want.append("reattach_terminals")
        if "ID_SET" in on:
            want.append("project_ids")
        if "FILTER_SET" in on:
            want.append("filter_nonterminals")
        if "INSERTION_SET" in on:
            want.append("insert_intermediate")
        if "PARENT" in on:
            want.append("annotate_parent_tag")
        if self.outf == "absolute":
            want += ["collapse_unary_chains", "annotate_absolute"]
        if self.outf == "relative":
            want += ["collapse_unary_chains", "annotate_relative"]
        want.append("write_tree")
        seq = list(seq)
        tag = ",".join(sorted(on)) or "no options"
        if "write_tree" not in seq:
            return self.bad("not-written", "a tree is read but not written (options: %s, %s)" % (tag, self.outf), fr, line)
        if seq.count("write_tree") > 1:
            return self.bad("written-twice", "a tree is written more than once (options: %s, %s)" % (tag, self.outf), fr, line)
        # part-of-speech annotation: one sentence per tree, used, before reattachment
        npos = seq.count("read_pos"), seq.count("annotate_pos")
        wpos = (1, 1) if "ANNOTATE_POS" in on else (0, 0)
        if npos != wpos:
            return self.bad("pos-count", "with options %s a tree meets %d part-of-speech sentences and %d annotations" % (tag, npos[0], npos[1]), fr, line)
        if "ANNOTATE_POS" in on:
            i = seq.index("annotate_pos")
            if seq.index("read_pos") > i:
                return self.bad("pos-order", "part-of-speech annotation precedes reading its sentence", fr, line)
            for x in want:
                if x in ("remove_dummy_nodes", "projectivize"):
                    continue
                if x in seq and seq.index(x) < i:
                    return self.bad("order:annotate_pos", "part-of-speech annotation comes after %s" % x, fr, line)
        # secondary edges
        if "add_secondary_edge" in seq:
            if not ("SEC_EDGES" in on and "PROJECTIVIZE" in on):
                return self.bad("sec-unasked", "secondary edges are added without being asked for (options: %s)" % tag, fr, line)
            i = seq.index("add_secondary_edge")
            before = [x for x in seq[:i] if x not in ("read_pos", "annotate_pos")]
            if not before or before[-1] != "projectivize":
                return self.bad("sec-order", "secondary edges are not added right after projectivisation (after %s)" % (before[-1:] or ["nothing"])[0], fr, line)
        rest = [x for x in seq if x not in ("read_pos", "annotate_pos", "add_secondary_edge")]
        if rest != want:
            self.bad("sequence:%s" % diff(rest, want), "with options %s and output format %s a tree goes through %s instead of %s" % (tag, self.outf, " > ".join(rest), " > ".join(want)), fr, line)

    # ------------------------------------------------ option values
    def check_args(self, e, st, name, args, i, fr, line):
        rest = [a for j, a in enumerate(args) if j != i]
        if name == "collapse_unary_chains":
            d = e.deep(st, rest[0])
            if not (d.op == "str" and d.a[0] == "_"):
                self.bad("collapse-delim", "unary chains are collapsed with delimiter %s, the readers restore them with \"_\"" % show(d), fr, line)
        elif name == "annotate_parent_tag":
            if not same_opt(e.deep(st, rest[0]), "PARENT"):
                self.bad("value:PARENT", "parent annotation is not given the requested feature name (%s)" % show(e.deep(st, rest[0]))[:100], fr, line)
        elif name == "add_secondary_edge":
            par, ch = e.deep(st, rest[0]), e.deep(st, rest[1])
            okp = part_of(par, "res:projectivize", 0)
            okc = part_of(ch, "res:projectivize", 2)
            if not (okp and okc):
                self.bad("sec-args", "a secondary edge is added between nodes other than the old parent and the moved node reported by projectivisation", fr, line)
        elif name == "annotate_pos":
            v = e.deep(st, rest[0])
            if not contains_op(v, "pos_sentence"):
                self.bad("pos-arg", "part-of-speech annotation is not given the sentence read for the tree", fr, line)
        elif name == "reattach_terminals":
            v = e.deep(st, rest[0])
            if not contains_op(v, "op:root") and not is_root_of(self.p, v):
                self.bad("reattach-root", "terminals are not reattached to the root (%s)" % show(v)[:100], fr, line)
            self.check_closure(e, st, rest[1], args[i], name, fr, line)
        elif name == "project_ids":
            if not same_opt(e.deep(st, rest[0]), "ID_FEATURE_NAME"):
                self.bad("value:ID_FEATURE_NAME", "ID projection is not given the requested feature name (%s)" % show(e.deep(st, rest[0]))[:100], fr, line)
            self.check_closure(e, st, rest[1], args[i], name, fr, line)
        elif name in ("filter_nonterminals", "insert_intermediate"):
            self.check_closure(e, st, rest[0], args[i], name, fr, line)

    def check_closure(self, e, st, clo, tref, name, fr, line):
        self.probing += 1
        s2 = st.copy()
        s2.ps = ()
        h = e.h
        ph = Probe(self)
        e.h = ph
        node = T("sym", "node")
        cases = []
        try:
            for v, s in e.call_value(fr, 0, s2, clo, [tref, node], line, "probe"):
                v = e.deep(s, v)
                if v.op in ("app", "eqv", "ieq", "not") or (v.op == "agg" and False):
                    cases.append((TRUE, s.ps + ((v, True),)))
                    cases.append((FALSE, s.ps + ((v, False),)))
                else:
                    cases.append((v, s.ps))
        finally:
            e.h = h
            self.probing -= 1
        if not cases:
            return self.bad("closure:" + name, "the condition given to %s has no outcome" % name, fr, line)
        for v, conds in cases:
            self.judge(name, v, conds, node, fr, line)

    def judge(self, name, v, conds, node, fr, line):
        want_opt = {"reattach_terminals": "REATTACH", "project_ids": "ID_SET", "filter_nonterminals": "FILTER_SET", "insert_intermediate": "INSERTION_SET"}[name]
        atom = None
        root = None
        other = None
        for c, tr in conds:
            while c.op == "not":
                c, tr = c.a[0], not tr
            os_ = opts_in(c)
            if c.op == "eqv" and node in c.a and not os_:
                root = tr
                continue
            if not os_:
                continue
            if c.op == "app" and c.a[0] in ("str::starts_with", "HashSet::contains", "str::ends_with", "str::contains"):
                good = c.a[0] == ("str::starts_with" if name == "reattach_terminals" else "HashSet::contains")
                lab = c.a[1] if name == "reattach_terminals" else c.a[2]
                setside = c.a[2] if name == "reattach_terminals" else c.a[1]
                if not (good and opts_in(setside) == {want_opt} and is_label_of(self.p, lab, node)):
                    other = c
                else:
                    atom = tr
            else:
                other = c
        if other is not None:
            return self.bad("closure:" + name, "%s decides by %s instead of the label of the node and the value of %s" % (name, show(other)[:140], want_opt), fr, line)
        d = "requested" if True else ""
        if name == "project_ids":
            want = True if (root is True or atom is True) else (False if atom is False and root is False else None)
            got = truth(v)
        elif name == "insert_intermediate":
            want = None if atom is None else not atom
            got = None
            if v.op == "agg" and v.a[0] == OPT:
                got = v.a[1] == 1
                if got and not same_opt(v.a[2][0], "INSERTION_LABEL"):
                    return self.bad("value:INSERTION_LABEL", "inserted nodes are not given the requested label (%s)" % show(v)[:100], fr, line)
        else:
            want = atom
            got = truth(v)
        if want is None or got is None or want != got:
            self.bad("closure:" + name, "%s: the condition gives %s where the requested one (%s%s) gives %s" % (name, show(v)[:60], want_opt, " or root" if name == "project_ids" else "", want), fr, line)


class Probe(Hooks):
    def __init__(self, outer):
        self.o = outer

    def on_call(self, e, st, key, info, args, fr, line):
        return self.o.on_call(e, st, key, info, args, fr, line)

    def on_assume(self, e, st, cond, truth, fr, line):
        st.ps = st.ps + ((cond, truth),)

    def ps_key(self, ps):
        return ps


def truth(v):
    return v.a[0] if v.op == "bool" else None


def diff(got, want):
    for i in range(max(len(got), len(want))):
        g = got[i] if i < len(got) else None
        w = want[i] if i < len(want) else None
        if g != w:
            return "%s-for-%s" % (g, w)
    return "same"


def optname(t):
    return t.a[0] if t.op == "str" else "?"


def walk(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


def contains(t, u):
    return any(x is u for x in walk(t))


def contains_op(t, name):
    return any(x.op == "app" and x.a and x.a[0] == name for x in walk(t))


def opts_in(t):
    return {x.a[1] for x in walk(t) if x.op == "app" and x.a[0] == "opt"}


def same_opt(v, n):
    while v.op == "app" and v.a[0] != "opt" and len(v.a) == 2 and isinstance(v.a[1], Term):
        v = v.a[1]
    return v is opt(n)


def is_root_of(p, v):
    return v.op == "fld" and v.a[2] == p.R.t_root


def part_of(v, res, idx):
    """v is component idx of an element of the named result"""
    return contains_op(v, res) and v.op == "fld" and v.a[-1] == idx


def is_label_of(p, v, node):
    R = p.R
    for x in walk(v):
        if x.op == "nd" and x.a[-1] is node:
            break
    else:
        return False
    return v.op == "fld" and (v.a[1:] == (0, R.nt_label) or v.a[1:] == (0, R.t_pos))


PROG = None


def scenario(args):
    on, inf, outf, multi = args
    h = MainHooks(PROG, frozenset(on), inf, outf, multi)
    try:
        e = Engine(PROG, h, 60)
        key = main_key(PROG)
        exits = e.run(key)
        fr = e.new_frame(key, None, 0)
        for v, s in exits:
            if s.ps and isinstance(s.ps[0], Term):
                h.close(e, s, fr, PROG.bodies[key]["line"])
        return dict(problems=h.problems, ops=h.ops, finished=h.finished, exits=len(exits), readers=[show_reader(x) for x in h.readers], writers=[show_writer(PROG, x) for x in h.writers], err=None)
    except Exception as ex:
        import traceback
        return dict(problems={}, ops=0, finished=0, exits=0, readers=[], writers=[], err=traceback.format_exc())


def show_reader(v):
    names = {}
    for x in walk(v):
        if x.op == "agg" and re.search(r"(Reader|PTBFormat|PTBLineFormat)$", x.a[0]):
            names[x.a[0].split("::")[-1]] = x.a[1]
    clos = sorted({x.a[0] for x in walk(v) if x.op == "closure"})
    fns = sorted({x.a[0] for x in walk(v) if x.op == "fn"})
    return dict(adts=names, closures=clos, fns=fns, opts=sorted(opts_in(v)), ext=sorted({x.a[0] for x in walk(v) if x.op == "app" and x.a[0] in ("Reader::new", "ReadSentence::sentences")}))


def show_writer(p, v):
    names = {}
    for x in walk(v):
        if x.op == "agg" and re.search(r"(Writer|PTBFormat)$", x.a[0]):
            names[x.a[0].split("::")[-1]] = x.a[1]
    return dict(adts=names, opts=sorted(opts_in(v)), ext=sorted({x.a[0] for x in walk(v) if x.op == "app" and x.a[0] in ("Writer::new",)}))


def runall(prog, jobs):
    global PROG
    PROG = prog
    n = min(8, os.cpu_count() or 1)
    with multiprocessing.get_context("fork").Pool(n) as pool:
        return pool.map(scenario, jobs, chunksize=8)


@check("C08", "exhaustive enumeration of option valuations with path-sensitive effect-sequence analysis of the tool's main loop (MIR abstract interpretation, library operations summarised)", "other",
       "For every combination of the nine step options and the three classes of output format, every path through the loop is shown to apply exactly the requested steps in order, to the tree just read, with the right option value; "
       "what each library step does is covered by the other properties.")
def c08(r):
    p = r.p
    r.rule("between drawing a tree and drawing the next one or ending, the sequence of mutating library calls on that tree is exactly the one the options ask for, ending in one write; closure arguments decide by the label and their own option's value")
    jobs = []
    for n in range(len(FLAGS) + 1):
        for c in itertools.combinations(FLAGS, n):
            for o in ("negra", "absolute", "relative"):
                jobs.append((c, "negra", o, False))
    for o in ("conllx", "ptb", "simple", "tueba"):
        for c in ((), tuple(FLAGS)):
            jobs.append((c, "negra", o, False))
    for i in ("absolute", "ptb", "relative", "simple", "tueba"):
        for c in ((), tuple(FLAGS)):
            jobs.append((c, i, "simple", True))
    res = runall(p, jobs)
    ops = fin = 0
    for j, x in zip(jobs, res):
        if x["err"]:
            raise RuntimeError("analysis of main failed for %s: %s" % (j, x["err"]))
        ops += x["ops"]
        fin += x["finished"]
        r.obs += x["finished"] + x["ops"]
        r.ok += x["finished"] + x["ops"] - len(x["problems"])
        for k, (m, w) in x["problems"].items():
            r.bad(k, m, w)
        if not x["finished"]:
            r.bad("no-loop", "with options %s no tree is processed" % (j,), "main")
    r.floor("option_valuations", len(jobs), 1536)
    r.floor("records_processed", fin, 1536)
    r.floor("step_applications", ops, 5000)
    r.sample("all options, absolute: %s" % ", ".join(sorted(set(FLAGS))))


@check("C09", "constant propagation of every advertised format name through the tool to the reader and writer value actually used (MIR abstract interpretation)", "other",
       "Complete for the advertised names and both line modes; rejection of other names relies on clap's possible_values and on the conversion from names checked here.")
def c09(r):
    p = r.p
    r.rule("for each advertised name, the value the main loop draws from (writes to) is exactly that format's reader (writer) with the requested line mode over the requested input (output); conversion rejects every other name; defaults are advertised")
    key = main_key(p)
    adv, dflt = advertised(p, key)
    r.floor("advertised_input", len(adv.get("IN_FORMAT", ())), 6)
    r.floor("advertised_output", len(adv.get("OUT_FORMAT", ())), 7)
    for o in ("IN_FORMAT", "OUT_FORMAT"):
        d = dflt.get(o)
        r.ob(d is not None and d in adv.get(o, ()), "default:" + o, "the default %s %r is not among the advertised names" % (o, d), "main")
    jobs = []
    for i in adv.get("IN_FORMAT", ()):
        for m in (False, True):
            jobs.append(((), i, adv["OUT_FORMAT"][0], m))
    for o in adv.get("OUT_FORMAT", ()):
        jobs.append(((), adv["IN_FORMAT"][0], o, False))
    nI = 2 * len(adv.get("IN_FORMAT", ()))
    res = runall(p, jobs)
    fv = variants(p, r"ptb::PTBFormat$")
    lv = variants(p, r"ptb::PTBLineFormat$")
    for n, (j, x) in enumerate(zip(jobs, res)):
        if x["err"]:
            raise RuntimeError("analysis of main failed for %s: %s" % (j, x["err"]))
        if n < nI:
            rd = x["readers"]
            name, multi = j[1], j[3]
            if not r.ob(bool(rd), "reader:%s:none" % name, "input format %s is advertised but no tree is read from it" % name, "main"):
                continue
            for y in rd:
                good, why = right_reader(p, name, multi, y, fv, lv)
                r.ob(good, "reader:%s" % name, "input format %s (multi-line: %s) %s" % (name, multi, why), "main")
                r.ob("INPUT" in y["opts"] and not (set(y["opts"]) - {"INPUT"}), "reader-input:%s" % name, "the %s reader does not read the input file (options used: %s)" % (name, y["opts"]), "main")
            r.sample("input %s multi=%s -> %s" % (name, multi, rd[0]["adts"] or rd[0]["ext"]))
        else:
            wr = x["writers"]
            name = j[2]
            if not r.ob(bool(wr), "writer:%s:none" % name, "output format %s is advertised but nothing is written for it" % name, "main"):
                continue
            for y in wr:
                good, why = right_writer(p, name, y, fv)
                r.ob(good, "writer:%s" % name, "output format %s %s" % (name, why), "main")
                r.ob("OUTPUT" in y["opts"] and not (set(y["opts"]) - {"OUTPUT"}), "writer-output:%s" % name, "the %s writer does not write to the output file (options used: %s)" % (name, y["opts"]), "main")
            r.sample("output %s -> %s" % (name, wr[0]["adts"] or wr[0]["ext"]))
    # names that are not advertised are rejected
    for o, rx in (("IN_FORMAT", "InFormat"), ("OUT_FORMAT", "OutFormat")):
        ks = [k for k, b in p.bodies.items() if "{closure" not in k and not b.get("derived") and b["crate"] != "lumberjack"
              and re.search(r"TryFrom|FromStr", b.get("impl_trait") or "") and b["T"][b["impl_self"]].get("path", "").endswith(rx)]
        for k in ks:
            h = Conds()
            e, exits = run(p, k, h)
            for v, s in exits:
                if is_ok(e, s, v) is False:
                    continue
                names = {c.a[1].a[0] if c.a[1].op == "str" else c.a[0].a[0] for c, t in (s.ps or ()) if t and c.op == "eqv" and any(x.op == "str" for x in c.a)}
                r.ob(bool(names) and names <= set(adv.get(o, ())), "unadvertised:%s:%s" % (o, ",".join(sorted(names))), "a name that is not advertised (%s) is accepted as %s" % (", ".join(sorted(names)) or "any", o), p.bodies[k]["path"])


class Conds(Hooks):
    def on_assume(self, e, st, cond, truth, fr, line):
        st.ps = (st.ps or ()) + ((cond, truth),)

    def ps_key(self, ps):
        return ps


def variants(p, rx):
    k = one(p, "adt", rx)
    return {v["n"]: i for i, v in enumerate(p.adts[k]["variants"])}


class Collect(Hooks):
    def __init__(self):
        self.args = []

    def on_call(self, e, st, key, info, args, fr, line):
        nm = e.m.short(info["path"])
        if nm == "App::arg":
            self.args.append(e.deep(st, args[1]))
        if nm == "App::args":
            self.args.append(e.deep(st, args[1]))
        if nm in ("App::get_matches", "App::get_matches_from", "App::get_matches_safe"):
            return []
        return None


def advertised(p, key):
    h = Collect()
    e, exits = run(p, key, h)
    adv, dflt = {}, {}
    for a in h.args:
        name = None
        for x in walk(a):
            if x.op == "app" and x.a[0] == "Arg::with_name" and x.a[1].op == "str":
                name = x.a[1].a[0]
        if name is None:
            continue
        for x in walk(a):
            if x.op == "app" and x.a[0] == "Arg::possible_values":
                vals = [y.a[0] for y in walk(x.a[2]) if y.op == "str"]
                adv[name] = tuple(dict.fromkeys(reversed(vals)))
            if x.op == "app" and x.a[0] == "Arg::possible_value" and x.a[2].op == "str":
                adv[name] = adv.get(name, ()) + (x.a[2].a[0],)
            if x.op == "app" and x.a[0] == "Arg::default_value" and x.a[2].op == "str":
                dflt[name] = x.a[2].a[0]
    if "IN_FORMAT" not in adv or "OUT_FORMAT" not in adv:
        raise Anchor("the advertised format names (possible_values)")
    return adv, dflt


BRACKET = {"ptb": "PTB", "simple": "Simple", "tueba": "TueBa"}


def right_reader(p, name, multi, y, fv, lv):
    a = y["adts"]
    if name == "negra":
        return ("NegraReader" in a and "PTBReader" not in a and not y["closures"], "does not select the NEGRA reader (%s)" % a)
    if name in BRACKET:
        good = "PTBReader" in a and a.get("PTBFormat") == fv[BRACKET[name]] and a.get("PTBLineFormat") == lv["MultiLine" if multi else "SingleLine"] and not y["closures"]
        return (good, "does not select the bracket reader of that format and line mode (%s)" % a)
    if name in ("absolute", "relative"):
        called = set()
        for c in y["closures"] + y["fns"]:
            called |= reach(p, c)
        w = "try_from_conllx_with_%s_encoding" % name
        other = "try_from_conllx_with_%s_encoding" % ("relative" if name == "absolute" else "absolute")
        n = {x.split("::")[-1] for x in called}
        return (w in n and other not in n and "Reader::new" in y["ext"], "does not select the reader of the %s encoding" % name)
    return (False, "is advertised but unknown to the documentation")


def right_writer(p, name, y, fv):
    a = y["adts"]
    if name == "negra":
        return ("NegraWriter" in a, "does not select the NEGRA writer (%s)" % a)
    if name in BRACKET:
        return ("PTBWriter" in a and a.get("PTBFormat") == fv[BRACKET[name]], "does not select the bracket writer of that format (%s)" % a)
    if name in ("absolute", "relative", "conllx"):
        return (not a and "Writer::new" in y["ext"], "does not select the CoNLL-X writer (%s)" % a)
    return (False, "is advertised but unknown to the documentation")


def reach(p, k, seen=None):
    seen = seen if seen is not None else set()
    if k in seen:
        return seen
    seen.add(k)
    b = p.bodies.get(k)
    if b is None or b["crate"] == "lumberjack":
        return seen
    for bl in b["blocks"]:
        t = bl.get("t")
        if t and t[0] == "call" and t[1][0] == "fn":
            i = t[1][1]
            reach(p, i.get("r") or i["key"], seen)
            seen.add(i["path"])
    return seen
