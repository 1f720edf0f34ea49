"""C15: the terminal count follows the words, and spans are recomputed after positions have moved."""
import re
from rt import *
from terms import *
from c_counter import Balance, base_of, strip_ver, b_path
from c_effects import Invariants
from c_kinds import entries, graph_atom
from c_conllx import ctx

ZERO = T("int", 0)


def leaves(t):
    if isinstance(t, int) or not isinstance(t, Term) or t.op == "int":
        return []
    if t.op == "lin":
        return leaves(t.a[0])
    if t.op in ("add", "sub"):
        return leaves(t.a[0]) + leaves(t.a[1])
    return [t]


def num(t, env):
    if isinstance(t, int):
        return t
    if t.op == "int":
        return t.a[0]
    if t.op == "lin":
        return num(t.a[0], env) + t.a[1]
    if t.op == "add":
        return num(t.a[0], env) + num(t.a[1], env)
    if t.op == "sub":
        return num(t.a[0], env) - num(t.a[1], env)
    return env[t]


def holds(f, env):
    a, b = num(f.a[0], env), num(f.a[1], env)
    c = f.a[2] if len(f.a) > 2 else 0
    return a - b < c if f.op == "lt" else a == b + c


class Step(Balance):
    """ghost state, per graph:
       ("n", g, k)       words added and not counted (k > 0), or counted and not there (k < 0)
       ("dirty", g, why) the spans of nonterminals are out of date
       ("new", g, idx)   a word was added; its parent's span has to be extended
       ("att", g, parent, idx) ... and this is its parent
       ("at", g, idx)    node visited by a walk over the tree
       ("miss", g)       the walk left a nonterminal as it was"""

    def __init__(self, r, p, name):
        Balance.__init__(self, r, p, name)
        self.nword = self.ncount = self.npos = self.nwalk = self.open = 0
        self.result = False
        self.rows, self.goals, self.tables = [], [], 0

    def settle(self, e, st, g):
        return True

    def on_loop(self, e, st, fr, block, back):
        return None

    def on_count(self, e, st, it, t, c):
        return None

    def kind(self, e, st, v):
        return e.discr(st, e.val(st, v))

    def words(self, st, g, n):
        k = sum(x[2] for x in self.items(st, g, "n"))
        self.drop(st, self.items(st, g, "n"))
        k = max(-2, min(2, k + n))
        if k:
            st.ps = (st.ps or frozenset()) | {("n", g, k)}

    def add(self, st, x):
        st.ps = (st.ps or frozenset()) | {x}

    def on_write(self, e, st, root, path, val, fr, line):
        R = self.R
        if root.op == "N":
            g, idx = root.a[0], root.a[1]
            keys = {(pe[3], pe[2]) for pe in path if pe[0] == "f"}
            if (R.nt_key, R.nt_span) in keys:
                self.drop(st, [x for x in self.items(st, g, "at") if x[2] is idx])
                for x in self.items(st, g, "att"):
                    if strip_ver(x[2]) is strip_ver(idx) or any(y.op in ("phi", "el", "lost", "src") for y in subterms(idx)):
                        self.drop(st, [x] + [y for y in self.items(st, g, "new") if y[2] is x[3]])
            elif (R.t_key, R.t_span) in keys:
                self.npos += 1
                self.shift(e, st, g, idx, path, val)
                self.add(st, ("dirty", g, "a word was moved"))
            return
        if root.op in ("P", "L") and path and path[-1][0] == "f" and path[-1][3] == R.tree_key and path[-1][2] == R.t_n:
            g, _ = self.tree_of(e, st, root, path[:-1])
            self.ncount += 1
            d = self.diff(e.val(st, val), e.val(st, e.load(st, root, path)))
            if d is None:
                self.open += 1
                self.drop(st, self.items(st, g, "n"))
                self.add(st, ("unk", g))
            else:
                self.words(st, g, -d)

    # -- positions as a decision table over the order of positions
    def count_of(self, e, st):
        return T("fld", T("sym", "self"), 0, self.R.t_n)

    def shift(self, e, st, g, idx, path, val):
        R = self.R
        v = e.deep(st, val)
        if path[-1][3] != R.t_key or v.op != "agg" or v.a[0] != R.span_key:
            return
        new = strip_ver(v.a[2][R.s_start])
        drawn = any(y.op == "it" for y in subterms(idx))
        base, k = (new.a[0], new.a[1]) if new.op == "lin" else (new, 0)
        if drawn:
            if not (self.own(base, idx)):
                self.rows.append(None)
                return
            fs = []
            for f, truth in st.facts.items():
                if f.op in ("lt", "ieq") and truth in (True, False):
                    f = strip_ver(f)
                    fs.append((f, truth))
            row = (base, k, tuple(sorted(set(fs), key=str)))
            if row not in self.rows:
                self.rows.append(row)
        else:
            old = strip_ver(e.val(st, e.load(st, T("N", g, idx), path + (("f", 0, R.s_start, R.span_key),))))
            self.goals.append(("move", new, old, self.count_of(e, st)))

    def own(self, t, idx):
        """is this the position the node had"""
        return isinstance(t, Term) and t.op == "fld" and any(y is idx or strip_ver(y) is strip_ver(idx) for y in subterms(t))

    def table(self):
        """do the rows map the positions of the other words onto the positions that are left"""
        rows = [x for x in self.rows if x is not None]
        goals = set(self.goals)
        if not rows or None in self.rows or len(goals) != 1:
            return None
        (kind, new, old, cnt), = goals
        poss = {x[0] for x in rows}
        if len(poss) != 1:
            return None
        pos, = poss
        used = []
        for _, k, fs in rows:
            mine = []
            for f, truth in fs:
                atoms = set(leaves(f.a[0])) | set(leaves(f.a[1]))
                if pos in atoms:
                    if atoms - {pos, new, old, cnt}:
                        return None
                    mine.append((f, truth))
                elif not atoms - {new, old, cnt}:
                    mine.append((f, truth))
            if not any({new, old} & (set(leaves(f.a[0])) | set(leaves(f.a[1]))) and pos in (set(leaves(f.a[0])) | set(leaves(f.a[1]))) for f, _ in mine):
                return None
            used.append((k, mine))
        self.tables += 1
        for n in range(1, 6):
            for i in range(n + (kind == "add")):
                for o in (range(n) if kind == "move" else (None,)):
                    if o == i:
                        continue
                    out = []
                    for q in range(n):
                        if q == o:
                            continue
                        env = {pos: q, new: i, cnt: n}
                        if old is not None:
                            env[old] = o
                        ks = {k for k, fs in used if all(holds(f, env) == t for f, t in fs)}
                        if len(ks) > 1:
                            return None
                        out.append(q + (ks.pop() if ks else 0))
                    left = [q for q in range(n + (kind == "add")) if q != i]
                    if out != left:
                        return "of %d words at %s, with one %s %d the others end up at %s" % (
                            n, list(range(n)), "added at" if kind == "add" else "moved from %d to" % o, i, out)
        return ""

    def step(self, e, st, it, x, c, fr, line):
        b = base_of(it)[0]
        if b is not None and b.op == "it" and b.a[0] == "edges" and x is None:
            # a path on which the new word has no parent: it cannot be taken
            for y in self.items(st, b.a[1], "att"):
                if any(z is y[3] or isinstance(z, Term) and strip_ver(z) is strip_ver(y[3]) for z in b.a[2:]):
                    self.drop(st, [y] + [z for z in self.items(st, b.a[1], "new") if z[2] is y[3]])
        if b is None or b.op != "it" or b.a[0] != "dfs":
            return
        g = b.a[1].a[1]
        for y in self.items(st, g, "at"):
            k = self.kind(e, st, e.load(st, T("N", g, y[2]), ()))
            if k != self.R.v_t:
                self.add(st, ("miss", g))
        self.drop(st, self.items(st, g, "at"))
        if x is None:
            self.nwalk += 1
            if not self.items(st, g, "miss") and self.whole(e, st, g, it, c):
                self.drop(st, self.items(st, g, "dirty") + self.items(st, g, "new") + self.items(st, g, "att"))
            self.drop(st, self.items(st, g, "miss"))
        else:
            n = [y for y in subterms(x) if y.op == "el" and y.a[0] is b]
            if n:
                self.add(st, ("at", g, n[0]))
            else:
                self.add(st, ("miss", g))

    def on_event(self, e, st, name, args, fr, line):
        if name in ("draw", "exhausted"):
            self.step(e, st, args["it"], args.get("x"), self.c, fr, line)
            return None
        g = args.get("g") if isinstance(args, dict) else None
        if name == "add_node":
            k = self.kind(e, st, args["w"])
            if k == self.R.v_t:
                self.nword += 1
                self.words(st, g, 1)
                self.add(st, ("new", g, args["idx"]))
                w = e.proj(e.val(st, args["w"]), ("f", self.R.v_t, 0, self.R.node_key))
                w = e.proj(w, ("f", 0, self.R.t_span, self.R.t_key))
                self.goals.append(("add", strip_ver(e.val(st, e.proj(w, ("f", 0, self.R.s_start, self.R.span_key)))), None, self.count_of(e, st)))
        elif name == "add_edge":
            for x in self.items(st, g, "new"):
                if strip_ver(args["tgt"]) is strip_ver(x[2]):
                    self.add(st, ("att", g, args["src"], x[2]))
        elif name == "remove_node":
            k = self.kind(e, st, args["w"])
            if k == self.R.v_t:
                self.nword += 1
                self.words(st, g, -1)
                self.add(st, ("dirty", g, "a word was removed"))
        return None

    def exits(self, e, ex, where, trees=None):
        for v, st in ex:
            if self.result and is_ok(e, st, v) is False:
                continue            # C03
            for g in list(self.graphs(st)):
                if graph_atom(g) is not None:
                    continue        # a tree that is being built
                if not self.items(st, g, "unk"):
                    for x in self.items(st, g, "n"):
                        self.flag("count", "%s returns with %s" % (self.name, "a word that the number of terminals does not count" if x[2] > 0 else "a number of terminals that counts a word that is not there"), where)
                for x in self.items(st, g, "dirty"):
                    self.flag("dirty", "%s returns after %s without the spans above having been recomputed" % (self.name, x[2]), where)
                for x in self.items(st, g, "new"):
                    self.flag("new", "%s returns after a word was added without a span above it having been extended" % self.name, where)


def mutators(p):
    for k in sorted(set(entries(p))):
        b = p.bodies[k]
        if any(re.match(r"&('\S+ )?mut (\w+::)*Tree$", b["T"][t]["s"]) for t in b["inputs"]):
            yield k, b


@check("C15", "typestate over MIR with symbolic counting: words added and removed against changes of the terminal count, and staleness of spans after positions change, until a walk over the whole tree has rewritten every nonterminal's span",
       "other",
       "Partial: every public operation on an existing tree. The terminal count moves by exactly the number of words added minus those removed; after a word is moved or removed a walk over the whole tree writes the span of each nonterminal it visits, "
       "and after a word is added that walk or a change of its parent's span follows. What is written into the spans, the updates along ancestors when a node is reattached, and the positions given out when a tree is built are not decided.")
def c15(r):
    p = r.p
    r.rule("the terminal count changes by exactly the number of words added less those removed, on every path that does not return an error")
    r.rule("after a word was moved or removed every nonterminal's span is written again before the operation returns; after a word was added also, or its parent's span is changed")
    r.rule("where words are shifted by a condition on their position, the table of conditions and shifts read off the paths maps the other words, in order, onto exactly the positions that are left (checked for every order of up to five positions)")
    n = 0
    for k, b in mutators(p):
        h = Step(r, p, b["path"])
        h.result = bool(re.match(r"(\w+::)*Result<", b["T"][b["output"]]["s"]))
        e, ex = run(p, k, h, lambda e, st, vals: setattr(h, "c", ctx(e, k)))
        h.exits(e, ex, "%s:%s" % (b["file"], b["line"]))
        for key, (msg, where) in sorted(h.found.items()):
            r.bad("%s:%s" % (h.name, key), msg, where)
        r.ob(True, "entry:%s" % h.name, "", "")
        n += 1
        if h.rows:
            t = h.table()
            r.count("tables of positions" if t is not None else "tables of positions left open")
            if t is not None:
                r.ob(not t, "%s:positions" % h.name, "%s does not shift the other words to the positions that are left: %s" % (h.name, t), "%s:%s" % (b["file"], b["line"]))
        r.count("words added or removed", h.nword)
        r.count("counts changed", h.ncount)
        r.count("positions written", h.npos)
        r.count("walks over the tree", h.nwalk)
        if h.nword or h.ncount or h.npos:
            r.sample("%s: %d words added or removed, %d changes of the count, %d positions written, %d walks" % (b["path"], h.nword, h.ncount, h.npos, h.nwalk))
    r.floor("operations", n, 10)
    r.floor("words added or removed", r.counts.get("words added or removed", 0), 3)
    r.floor("counts changed", r.counts.get("counts changed", 0), 3)
    r.floor("positions written", r.counts.get("positions written", 0), 4)
    r.floor("walks over the tree", r.counts.get("walks over the tree", 0), 3)
