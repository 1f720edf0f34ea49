"""C12: every operation comes to an end.  Loops and recursion, on the compiler's control-flow graphs."""
import re
from collections import defaultdict
from rt import *
from terms import *
from c_effects import Invariants

SUCCESS = {"Option": "1", "Result": "0", "ControlFlow": "0"}
DRAW = {"next", "next_back", "nth", "nth_back", "pop", "pop_front", "pop_back", "pop_first", "pop_last", "next_if", "next_if_eq",
        "find", "find_map", "position", "rposition", "try_next", "next_tuple", "split_first", "split_last"}
TAKES = {"take", "remove", "remove_entry", "swap_remove"}      # decrease only if they find something
GROW = {"push", "push_str", "push_back", "push_front", "insert", "extend", "write_char", "write_str"}
SHRINK = {"clear", "drain", "truncate", "split_off", "remove", "swap_remove"}
KEEPS = {"map", "ok_or", "ok_or_else", "as_ref", "as_mut", "branch", "cloned", "copied", "ok", "filter", "and_then", "flatten",
         "transpose", "map_err", "inspect", "as_deref", "as_deref_mut", "err_into", "zip"}
SAME = {"clone", "into", "from", "deref", "deref_mut", "borrow", "borrow_mut", "as_ref", "as_mut", "to_owned", "to_string", "as_str", "by_ref",
        "cloned", "copied", "index_identity", "into_iter", "branch", "unwrap", "expect"}
GENERATED = r"::rules::|<impl .*pest|as pest::"
TREE = r"&('\w+ )?mut (\w+::)*(Tree|StableGraph|String|Features)\b"


def canon_name(x):
    return re.split(r"::", x)[-1]


class Body(object):
    def __init__(self, w, k, b):
        self.w, self.k, self.b, self.T = w, k, b, b["T"]
        self.cfg = w.p.cfg(k)
        self.defs = defaultdict(list)       # local -> [(block, kind, rvalue/call)]
        self.pdefs = defaultdict(list)      # canonical place -> [(block, kind, ...)]
        self.live = [i for i, bl in enumerate(b["blocks"]) if i in self.cfg.rpo]
        self.returns, work = set(), [i for i in self.live if b["blocks"][i]["t"][0] == "return"]
        while work:
            x = work.pop()
            if x not in self.returns:
                self.returns.add(x)
                work.extend(self.cfg.pred[x])
        for i in self.live:
            bl = b["blocks"][i]
            for s in bl["s"]:
                if s[0] == "=":
                    if not s[1][1]:
                        self.defs[s[1][0]].append((i, "rv", s[2]))
            t = bl["t"]
            if t[0] == "call" and not t[3][1]:
                self.defs[t[3][0]].append((i, "call", t))
        for i in self.live:
            bl = b["blocks"][i]
            for s in bl["s"]:
                if s[0] == "=":
                    self.pdefs[self.canon(s[1]) if s[1][1] else (s[1][0], ())].append((i, "rv", s[2], s[3]))
            t = bl["t"]
            if t[0] == "call":
                self.pdefs[self.canon(t[3]) if t[3][1] else (t[3][0], ())].append((i, "call", t, bl["l"]))

    def ty(self, local):
        return self.T[self.b["locals"][local]]["s"]

    def proj(self, pl):
        return tuple((e[1] if e[0] == "f" else str(e)) for e in pl[1] if e != "*" and e[0] != "d")

    def canon(self, pl, depth=0):
        """the place behind a reference or a moved local"""
        l, pr = pl[0], self.proj(pl)
        ds = self.defs.get(l, ())
        if l > self.b["argc"] and len(ds) == 1 and depth < 30:
            _, kind, rv = ds[0]
            src = None
            if kind == "rv":
                if rv[0] == "ref":
                    src = rv[2]
                elif rv[0] == "use" and rv[1][0] in ("cp", "mv"):
                    src = rv[1][1]
                elif rv[0] == "cast" and rv[2][0] in ("cp", "mv"):
                    src = rv[2][1]
            elif kind == "call" and self.name(rv) in ("by_ref", "into_iter", "deref_mut", "borrow_mut", "as_mut") and rv[2] and rv[2][0][0] in ("cp", "mv"):
                # `into_iter` of an iterator is the iterator
                a = rv[2][0][1]
                if self.name(rv) != "into_iter" or self.ty(a[0]) == self.ty(l):
                    src = a
            if src is not None:
                c = self.canon(src, depth + 1)
                return (c[0], c[1] + pr)
        return (l, pr)

    def name(self, t):
        return t[1][1]["name"] if t[1][0] == "fn" and "name" in t[1][1] else canon_name(t[1][1].get("path", "")) if t[1][0] == "fn" else ""

    def callee(self, t):
        return t[1][1].get("r", t[1][1]["key"]) if t[1][0] == "fn" else None

    def calls(self, blocks=None):
        for i in self.live:
            if blocks is not None and i not in blocks:
                continue
            t = self.b["blocks"][i]["t"]
            if t[0] == "call":
                yield i, t

    # ---- what a value is computed from
    def ops(self, rv):
        """the places an assignment reads"""
        out = []
        for x in rv[1:]:
            if not isinstance(x, list):
                continue
            if len(x) == 2 and x[0] in ("cp", "mv"):
                out.append(x[1])
            elif len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list) and rv[0] in ("ref", "discr", "addr", "len"):
                out.append(x)
            else:
                out.extend(y[1] for y in x if isinstance(y, list) and len(y) == 2 and y[0] in ("cp", "mv"))
        return out

    def slice(self, places, stop=(), within=None):
        """(canonical places read, calls passed) by the computation of these places, whatever the path"""
        seen, calls, work = set(), [], [p for p in places]
        done = set()
        while work:
            pl = work.pop()
            c = self.canon(pl)
            for l in (pl[0], c[0]):
                seen.add(c)
                if (l, self.proj(pl)) in done:
                    continue
                done.add((l, self.proj(pl)))
                if l in stop or c in stop:
                    continue
                if l <= self.b["argc"]:
                    continue
                for d in self.defs.get(l, ()):
                    if within is not None and d[0] not in within:
                        continue
                    if d[1] == "rv":
                        work.extend(self.ops(d[2]))
                    else:
                        calls.append((d[0], d[2]))
                        for a in d[2][2]:
                            if a[0] in ("cp", "mv"):
                                work.append(a[1])
        return seen, calls

    def same_value(self, op, depth=0):
        """the canonical place an operand is a plain copy of, through clones and conversions"""
        if op[0] not in ("cp", "mv"):
            return None
        c = self.canon(op[1])
        ds = self.defs.get(c[0], ())
        if c[0] > self.b["argc"] and len(ds) == 1 and depth < 20:
            _, kind, d = ds[0]
            if kind == "call" and self.name(d) in SAME and d[2]:
                x = self.same_value(d[2][0], depth + 1)
                if x is not None:
                    return (x[0], x[1] + c[1])
        return c


class World(object):
    def __init__(self, r, p):
        self.r, self.p = r, p
        self.bodies = {}
        for k, b in p.bodies.items():
            if not re.search(GENERATED, b["path"]):
                self.bodies[k] = Body(self, k, b)
        self.prog = {}
        self.grow = {}
        self.shapes = {}

    # ---- does a function make progress on a parameter when it finds something?
    def advances(self, k, j=1, seen=()):
        if (k, j) in self.prog:
            return self.prog[(k, j)]
        B = self.bodies.get(k)
        if B is None or k in seen or B.b["argc"] < j or not B.ty(j).startswith("&mut") or re.match(TREE, B.ty(j)):
            return False
        res = False
        for i, t in B.calls():
            if any(x[0] == j for x in self.draws_of(B, t, seen + (k,))):
                res = True
        for c, ds in B.pdefs.items():
            if c[0] == j and c[1] and any(d[1] == "call" or d[1] == "rv" and d[2][0] != "use" or c not in B.slice(B.ops(d[2]))[0] for d in ds):
                res = True
        self.prog[(k, j)] = res
        return res

    def draws_of(self, B, t, seen=()):
        """the places a call takes something from if it finds something"""
        if not t[2] or t[2][0][0] not in ("cp", "mv"):
            return []
        n, a = B.name(t), t[2][0][1]
        ty = B.ty(a[0])
        dty = B.ty(t[3][0])
        k = B.callee(t)
        if k in self.bodies:
            if not re.match(r"(std|core)::(option::Option|result::Result)|bool|std::ops::ControlFlow", dty):
                return []
            return [B.canon(x[1]) for j, x in enumerate(t[2]) if x[0] in ("cp", "mv") and self.advances(k, j + 1, seen)]
        if re.match(TREE, ty) and n != "pop":
            return []
        if n in DRAW and ("&mut" in ty or n in ("split_first", "split_last")):
            return [B.canon(a)]
        if n in TAKES and ty.startswith("&mut") and re.match(r"bool|core::option::Option|std::option::Option", dty):
            return [B.canon(a)]
        if n in ("read_line", "read_until"):
            return [B.canon(a)]
        return []

    def edits_shape(self, k, seen=None):
        """adds or removes nodes or edges of a tree"""
        if k in self.shapes:
            return self.shapes[k]
        B = self.bodies.get(k)
        seen = seen if seen is not None else set()
        if B is None or k in seen:
            return False
        seen.add(k)
        res = any(B.name(t) in ("add_node", "add_edge", "remove_node", "remove_edge") or self.edits_shape(B.callee(t), seen) for i, t in B.calls())
        self.shapes[k] = res
        return res

    def adds_nodes(self, k, seen=None):
        if k in self.grow:
            return self.grow[k]
        B = self.bodies.get(k)
        seen = seen or set()
        if B is None or k in seen:
            return False
        seen.add(k)
        res = False
        for i, t in B.calls():
            c = B.callee(t)
            if B.name(t) == "add_node" or self.adds_nodes(c, seen):
                res = True
                break
        self.grow[k] = res
        return res


def compared(B, exits, local):
    """is a way out decided by comparing this value with another?"""
    for x in exits:
        seen, calls = B.slice([x])
        if local not in {c[0] for c in seen}:
            continue
        if any(B.name(q) in ("eq", "ne", "lt", "le", "gt", "ge", "contains") for _, q in calls):
            return True
        for c in seen:
            if any(d[1] == "rv" and d[2][0] == "bin" for d in B.defs.get(c[0], ())):
                return True
        if any(d[1] == "rv" and d[2][0] == "discr" for c in seen for d in B.defs.get(c[0], ())):
            return True
    return False


def success_edges(w, B, t, blk, exits=None):
    """edges (block, block) that are only passed when the call found something; None if its result goes somewhere unseen"""
    dest = t[3]
    opt, boo, neg, num = {B.canon(dest)}, set(), set(), set()
    if B.ty(dest[0]) == "bool":
        opt, boo = set(), {B.canon(dest)}
    edges, escaped, discrs = set(), False, {}
    if B.name(t) in ("read_line", "read_until"):
        num.add("payload")
    for _ in range(12):
        before = (len(opt), len(boo), len(neg), len(discrs), len(edges), escaped)
        for i in B.live:
            bl = B.b["blocks"][i]
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                d, rv = s[1], s[2]
                dc = (d[0], B.proj(d))
                if rv[0] == "use" and rv[1][0] in ("cp", "mv"):
                    src = B.canon(rv[1][1])
                    down = any(e != "*" and e[0] == "d" for e in rv[1][1][1])
                    if not down:
                        for st in (opt, boo, neg):
                            if src in st or (rv[1][1][0], B.proj(rv[1][1])) in st:
                                st.add(dc)
                elif rv[0] == "discr":
                    src = B.canon(rv[1])
                    if src in opt or (rv[1][0], B.proj(rv[1])) in opt:
                        discrs[d[0]] = SUCCESS.get(next((x for x in SUCCESS if re.match(r"(\w+::)*%s\b" % x, place_ty(B, rv[1]))), ""), None)
                elif rv[0] == "agg" and rv[1][0] == "tuple" if isinstance(rv[1], list) else rv[0] == "agg" and rv[1] == "tuple":
                    for j, o in enumerate(rv[2]):
                        if o[0] in ("cp", "mv") and B.canon(o[1]) in opt:
                            opt.add((dc[0], dc[1] + (j,)))
                elif rv[0] == "un" and rv[1] == "Not" and rv[2][0] in ("cp", "mv"):
                    src = B.canon(rv[2][1])
                    if src in boo:
                        neg.add(dc)
                    if src in neg:
                        boo.add(dc)
            q = bl["t"]
            if q[0] == "call" and q is not t:
                args = [B.canon(a[1]) for a in q[2] if a[0] in ("cp", "mv")]
                if args and args[0] in opt:
                    n = B.name(q)
                    dd = (q[3][0], B.proj(q[3]))
                    if n in KEEPS:
                        opt.add(B.canon(q[3]) if not q[3][1] else dd)
                    elif n in ("is_some", "is_ok"):
                        boo.add(dd)
                    elif n in ("is_none", "is_err"):
                        neg.add(dd)
                    elif n in ("unwrap", "expect", "unwrap_unchecked"):
                        if q[4] is not None:
                            edges.add((i, q[4]))
                    elif n in ("is_some_and", "is_ok_and", "map_or") and B.ty(q[3][0]) == "bool":
                        if n != "map_or" or q[2][1] == ["c", ["bool", False]] or "false" in str(q[2][1]).lower():
                            boo.add(dd)
                    elif n in ("unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else") and exits is not None and not compared(B, exits, q[3][0]):
                        pass
                    elif n not in ("drop", "drop_in_place"):
                        escaped = True
                elif any(a in opt for a in args):
                    escaped = True
            if q[0] == "switch" and q[1][0] in ("cp", "mv"):
                pl = q[1][1]
                c = B.canon(pl)
                listed = {v: x for v, x in q[2]}
                if pl[0] in discrs and discrs[pl[0]] is not None:
                    y = discrs[pl[0]]
                    tgt = listed.get(y, q[3])
                    if y in listed or len(listed) == 1:
                        others = {x for v, x in q[2] if v != y} | ({q[3]} if y in listed else set())
                        if tgt not in others or not reaches_live(B, others, tgt):
                            edges.add((i, tgt))
                for st, val in ((boo, True), (neg, False)):
                    if c in st or (pl[0], B.proj(pl)) in st:
                        tgt = (q[3] if val else listed.get("0")) if "0" in listed else None
                        if tgt is not None:
                            edges.add((i, tgt))
        if (len(opt), len(boo), len(neg), len(discrs), len(edges), escaped) == before:
            break
    if any(c[0] == 0 for c in opt | boo):
        escaped = True
    if num:
        escaped = True      # how many bytes were read is judged by the caller of the helper that looks at it
    return edges, escaped


def reaches_live(B, others, tgt):
    return tgt in others


def place_ty(B, pl):
    """the type of a place, or of the local it belongs to when only dereferenced"""
    T = B.T
    t = T[B.b["locals"][pl[0]]]
    s = t["s"]
    for e in pl[1]:
        if e == "*":
            s = re.sub(r"^&('\w+ )?(mut )?", "", s)
        elif e[0] == "f":
            s = T[e[2]]["s"] if isinstance(e[2], int) and e[2] < len(T) else s
    return s


class Loop(object):
    def __init__(self, w, B, h, blocks):
        self.w, self.B, self.h, self.blocks = w, B, h, blocks

    def defined_inside(self, c):
        if any(i in self.blocks for i, *_ in self.B.defs.get(c[0], ())):
            return True
        return bool(c[1]) and any(i in self.blocks for n in range(len(c[1])) for i, *_ in self.B.pdefs.get((c[0], c[1][:n + 1]), ()))

    def exits(self):
        out = []
        for i in self.blocks:
            t = self.B.b["blocks"][i]["t"]
            if t[0] == "switch" and any(x not in self.blocks and x in self.B.returns for x in self.B.cfg.succ[i]):
                out.append(t[1][1] if t[1][0] in ("cp", "mv") else None)
        return [x for x in out if x is not None]

    def judge(self):
        w, B = self.w, self.B
        edges, nodes, weak, kinds, infinite = set(), set(), set(), set(), []
        exits = self.exits()
        read, xcalls = B.slice(exits) if exits else (set(), [])
        roots = {c[0] for c in read}
        popped = []
        for i, t in B.calls(self.blocks):
            n = B.name(t)
            k = B.callee(t)
            draws = w.draws_of(B, t)
            if draws:
                draws = [x for x in draws if not self.defined_inside(x) or self.climbs(x)]
                if not draws:
                    continue
                res = draws[0]
                ed, esc = success_edges(w, B, t, i, exits)
                ty = place_ty(B, (res[0], [])) + " " + B.ty(t[2][0][1][0])
                if re.search(r"\b(Repeat|RepeatWith|Cycle|RangeFrom)<", ty) and not re.search(r"\b(Zip|Take|TakeWhile|MapWhile)<", ty):
                    infinite.append((i, ty))
                    kinds.add("counts")
                    if len([x for x in exits]) < 2 and not any(a not in self.blocks for a in self.other_exits(i)):
                        continue
                if esc and not ed:
                    if t[4] is not None:
                        edges.add((i, t[4]))
                    kinds.add("takes")
                    continue
                if ed:
                    kinds.add("takes")
                    edges |= ed
                    popped.append((res, t))
                continue
            if t[2] and t[2][0][0] in ("cp", "mv"):
                c = B.canon(t[2][0][1])
                if n in SHRINK and B.ty(t[2][0][1][0]).startswith("&mut") and c[0] in roots:
                    nodes.add(i)
                    kinds.add("shrinks")
                if n in GROW and c[0] in roots and any(B.name(q) in ("len", "capacity", "count") for _, q in xcalls):
                    nodes.add(i)
                    kinds.add("fills up")
                first = B.ty(t[2][0][1][0])
                if re.match(r"&('\w+ )?mut (\w+::)*(Tree|StableGraph)\b", first) and (w.edits_shape(k) or n in ("remove_node", "remove_edge")):
                    weak.add(i)
        # counters and climbing
        for c, ds in B.pdefs.items():
            inside = [d for d in ds if d[0] in self.blocks]
            if not inside or c[0] not in roots and c not in read:
                continue
            if not c[1] and c[0] > B.b["argc"] and len(inside) == len(ds):
                continue        # nothing is carried from one round to the next
            up, down, climb, other = [], [], [], []
            for d in inside:
                if d[1] == "rv" and d[2][0] == "agg" or d[1] == "rv" and d[2][0] == "ref" or d[1] == "rv" and d[2][0] in ("discr", "len"):
                    other.append(d)
                    continue
                s = self.step(c, d)
                (up if s == 1 else down if s == -1 else climb if s == "climb" else other).append(d)
            if other or up and down:
                continue
            if up or down or climb:
                for d in up + down + climb:
                    nodes.add(d[0])
                kinds.add("counts" if up or down else "climbs")
        good, cyc = self.covered(edges, nodes)
        if good:
            bad = self.requeues(popped)
            if bad:
                return "bad", "what is taken from a collection is put back into it", kinds
            if kinds == {"takes"} and popped and all(self.walker(x) for x, _ in popped) and any(w.adds_nodes(B.callee(t)) or B.name(t) == "add_node" for _, t in B.calls(self.blocks)):
                return "bad", "nodes are added to the tree while a walk over it is going on", kinds
            return "ok", None, kinds
        if weak:
            strong = edges or nodes
            if strong:
                good, cyc = self.covered(edges, nodes | weak)
                if good:
                    return "ok", None, kinds | {"edits"}
            else:
                stop = {B.b["blocks"][i]["t"][3][0] for i in weak}
                seen, _ = B.slice(exits, stop=stop, within=self.blocks)
                trees = {B.canon(B.b["blocks"][i]["t"][2][0][1])[0] for i in weak}
                if any(c[0] in trees for c in seen):
                    return "trusted", None, {"edits"}
        if infinite and not edges and not nodes:
            return "bad", "it draws from a source that never runs out and has no other way out", kinds
        if not exits and not any(x not in self.blocks for i in self.blocks for x in B.cfg.succ[i]):
            return "bad", "it has no way out", kinds
        return "bad", "one way round it takes nothing from what it iterates over, moves no counter and does not climb (around line %s)" % self.lines(cyc), kinds

    def other_exits(self, blk):
        """blocks reached by exits that do not come from the draw in this block"""
        out = []
        for i in self.blocks:
            for x in self.B.cfg.succ[i]:
                if x not in self.blocks and x in self.B.returns:
                    out.append(x)
        return out if len(out) > 1 else []

    def walker(self, c):
        return re.search(r"\b(Climber|Dfs|DfsPostOrder|Bfs|WalkNeighbors)\b", place_ty(self.B, (c[0], [])))

    def requeues(self, popped):
        B = self.B
        for res, t in popped:
            if not re.match(r"pop", B.name(t)):
                continue
            for i, q in B.calls(self.blocks):
                if re.match(r"push|insert$", B.name(q)) and len(q[2]) > 1 and q[2][0][0] in ("cp", "mv") and B.canon(q[2][0][1]) == res:
                    v = B.same_value(q[2][-1])
                    if v is not None:
                        d = B.canon(t[3])
                        if v[0] in (d[0], t[3][0]):
                            return True
        return False

    def climbs(self, c):
        """a walker that is set anew in the loop, from what it gave out before"""
        B = self.B
        if c[1]:
            return False
        for i, kind, d in B.defs.get(c[0], ()):
            if i in self.blocks:
                if kind == "rv" and d[0] == "use" and d[1][0] in ("cp", "mv") and not d[1][1][1] and len(B.defs.get(d[1][1][0], ())) == 1:
                    _, kind, d = B.defs[d[1][1][0]][0]
                if kind != "call":
                    return False
                seen, calls = B.slice([a[1] for a in d[2] if a[0] in ("cp", "mv")])
                outs = {B.canon(t[3])[0] for _, t in B.calls(self.blocks) if c in self.w.draws_of(B, t)} | {t[3][0] for _, t in B.calls(self.blocks) if c in self.w.draws_of(B, t)}
                if not outs & {x[0] for x in seen}:
                    return False
        return len(B.defs.get(c[0], ())) > 1

    def step(self, c, d, depth=0):
        """1/-1 if the assignment counts a place up/down, "climb" if it is computed from itself by a call, else None"""
        B = self.B
        if d[1] == "call":
            t = d[2]
            n = B.name(t)
            if n in SAME - {"unwrap", "expect", "branch"} or not t[2]:
                return None
            if t[2][0][0] in ("cp", "mv") and re.match(r"&('\w+ )?mut (\w+::)*(Tree|StableGraph)\b", B.ty(t[2][0][1][0])):
                return None
            seen, calls = B.slice([a[1] for a in t[2] if a[0] in ("cp", "mv")], stop=(c,))
            if c in seen or any(x[0] == c[0] for x in seen):
                if re.search(r"(wrapping|saturating|checked)_(add|sub)", n):
                    return 1 if n.endswith("add") else -1
                if self.stuck(t):
                    return None
                return "climb" if n not in SAME or calls else None
            return None
        rv = d[2]
        if rv[0] in ("use", "cast"):
            o = rv[1] if rv[0] == "use" else rv[2]
            if o[0] not in ("cp", "mv"):
                return None
            l = o[1][0]
            ds = B.defs.get(l, ())
            if len(ds) == 1 and depth < 10:
                q = ds[0]
                if q[0] not in self.blocks:
                    return None
                return self.step(c, (q[0], q[1], q[2]), depth + 1)
            seen, calls = B.slice([o[1]], stop=(c,))
            if any(x[0] == c[0] for x in seen) and self.climbing(calls):
                return "climb"
            return None
        if rv[0] == "bin" and re.match(r"(Add|Sub)", rv[1]):
            a, b = rv[2], rv[3]
            ca = B.same_value(a)
            cb = B.same_value(b)
            const = lambda o: o[0] == "c" and isinstance(o[1], list) and o[1][0] == "int" and o[1][1] not in ("0", 0)
            if ca == c and const(b):
                return 1 if rv[1].startswith("Add") else -1
            if cb == c and const(a) and rv[1].startswith("Add"):
                return 1
            return None
        if rv[0] == "bin" and re.match(r"(Div|Shr)", rv[1]) and B.same_value(rv[2]) == c:
            return -1
        if rv[0] == "ref":
            seen, calls = B.slice([rv[2]], stop=(c,))
            if any(x[0] == c[0] for x in seen) and self.climbing(calls):
                return "climb"
        return None

    def stuck(self, t):
        B = self.B
        return B.name(t) == "index" and len(t[2]) > 1 and t[2][1][0] in ("cp", "mv") and "RangeFrom" in B.ty(t[2][1][1][0]) and not self.moves_on(t[2][1][1])

    def climbing(self, calls):
        calls = [t for i, t in calls if i in self.blocks and not self.grows(t) and self.B.name(t) not in SAME]
        return bool(calls) and not any(self.stuck(t) for t in calls)

    def moves_on(self, pl):
        """the start of the rest of a text is not where it was: not if it may be 0, found by a pattern that may be empty"""
        B = self.B
        seen, calls = B.slice([pl], within=self.blocks)
        for i in self.blocks:
            for s in B.b["blocks"][i]["s"]:
                if s[0] == "=" and s[2][0] == "bin" and s[2][1].startswith("Add") and any((s[1][0]) == c[0] for c in seen):
                    if any(o[0] == "c" and isinstance(o[1], list) and o[1][0] == "int" and o[1][1] not in ("0", 0) for o in s[2][2:4]):
                        return True
        names = {B.name(q) for _, q in calls}
        if names - {"find", "rfind", "len", "as_str", "deref", "unwrap", "expect", "branch", "as_ref", "borrow", "index"}:
            return True
        if "len" not in names:
            return "find" not in names
        for _, q in calls:
            if B.name(q) == "len" and q[2] and q[2][0][0] in ("cp", "mv"):
                if B.canon(q[2][0][1])[0] <= B.b["argc"] and re.search(r"str\b|String", B.ty(q[2][0][1][0])):
                    return False
        return True

    def grows(self, t):
        B = self.B
        return t[2] and t[2][0][0] in ("cp", "mv") and re.match(r"&('\w+ )?mut (\w+::)*(Tree|StableGraph)\b", B.ty(t[2][0][1][0]))

    def covered(self, edges, nodes):
        """is every cycle through the head cut?"""
        B = self.B
        if self.h in nodes:
            return True, None
        seen, work = {}, [(self.h, None)]
        while work:
            x, frm = work.pop()
            for y in B.cfg.succ[x]:
                if y not in self.blocks or (x, y) in edges or y in nodes and y != self.h:
                    continue
                if y == self.h:
                    path, z = [x], frm
                    while z is not None:
                        path.append(z)
                        z = seen.get(z)
                    return False, path
                if y not in seen:
                    seen[y] = x
                    work.append((y, x))
        return True, None

    def lines(self, path):
        ls = sorted({self.B.b["blocks"][i]["l"] for i in path or ()})
        return "%s-%s" % (ls[0], ls[-1]) if ls else "?"


CONSUME = {"collect", "count", "last", "fold", "for_each", "sum", "product", "max", "min", "max_by", "min_by", "max_by_key", "min_by_key", "unzip", "partition", "extend", "from_iter", "join", "sorted"}


def sources(r, w):
    """no source without an end is read to its end"""
    n = 0
    for k, B in sorted(w.bodies.items()):
        for i, t in B.calls():
            if B.name(t) not in CONSUME:
                continue
            for a in t[2]:
                if a[0] in ("cp", "mv"):
                    ty = B.ty(a[1][0])
                    if re.search(r"iter|Iter|Range|ops::", ty):
                        n += 1
                        if re.search(r"\b(Repeat|RepeatWith|Cycle|RangeFrom)<", ty) and not re.search(r"\b(Zip|Take|TakeWhile|MapWhile|Scan)<", ty):
                            r.bad("%s:endless-source" % B.b["path"], "%s reads a source that never runs out to its end: %s" % (B.name(t), ty[:120]), "%s:%s" % (B.b["file"], B.b["blocks"][i]["l"]))
    r.count("iterators read to their end", n)


def top(w, k):
    """the function a closure is written in"""
    while k in w.p.bodies and w.p.bodies[k].get("parent") in w.p.bodies and "{closure" in k:
        k = w.p.bodies[k]["parent"]
    return re.sub(r"(::\{closure#\d+\})+$", "", k)


def recursion(r, w):
    p = w.p
    impls = {}
    for k, B in w.bodies.items():
        m = re.match(r"<(.*) as core::(convert::From<(.*)>|fmt::Display|fmt::Debug|convert::TryFrom<(.*)>)>::(from|fmt|try_from)$", B.b["path"])
        if m and B.b["argc"]:
            impls[(m.group(5), B.ty(1).replace("&", ""))] = k
    calls = defaultdict(list)
    for k, B in w.bodies.items():
        for i, t in B.calls():
            c = B.callee(t)
            if c in w.bodies:
                calls[k].append((c, i, t))
                continue
            if t[1][0] != "fn":
                continue
            args = t[1][1].get("args") or ()
            n = B.name(t)
            tys = [B.T[a]["s"] for a in args if isinstance(a, int) and a < len(B.T)]
            if n == "into" and len(tys) == 2:
                for (nm, src), q in impls.items():
                    if nm == "from" and src == tys[0].replace("&", "") and (B.T[p.bodies[q]["output"]]["s"] if p.bodies[q].get("output") is not None else "") == tys[1]:
                        calls[k].append((q, i, t))
            elif n in ("to_string", "new_display", "new_debug") and tys:
                q = impls.get(("fmt", tys[-1].replace("&", "")))
                if q is not None and ("Debug" in p.bodies[q]["path"]) == (n == "new_debug"):
                    calls[k].append((q, i, t))
    # closures belong to the function they are written in
    graph = defaultdict(set)
    for k in w.bodies:
        graph[top(w, k)] |= {top(w, c) for c, _, _ in calls[k]}

    def reach(a):
        seen, work = set(), [a]
        while work:
            x = work.pop()
            for y in graph.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return seen
    reached = {k: reach(k) for k in graph}
    n = 0
    for k, B in sorted(w.bodies.items()):
        me = top(w, k)
        for c, i, t in calls[k]:
            if me not in reached.get(top(w, c), ()) and top(w, c) != me or top(w, c) == me and "{closure" in c:
                continue
            n += 1
            where = "%s:%s" % (B.b["file"], B.b["blocks"][i]["l"])
            good = descends(w, B, k, i, t)
            r.ob(good, "%s:recursion:%s" % (p.bodies[me]["path"] if me in p.bodies else me, canon_name(c)),
                 "a call that comes back to the same function passes on what it was given, unchanged, without having taken anything from it", where)
    r.count("recursive calls", n)


def descends(w, B, k, blk, t):
    # something was taken from a parameter on every path to the call
    edges = set()
    for i, q in B.calls():
        if any(x[0] <= B.b["argc"] for x in w.draws_of(B, q)):
            ed, esc = success_edges(w, B, q, i)
            edges |= ed
    if edges:
        seen, work = {0}, [0]
        while work:
            x = work.pop()
            for y in B.cfg.succ[x]:
                if (x, y) not in edges and y not in seen:
                    seen.add(y)
                    work.append(y)
        if blk not in seen:
            return True
    closure = "{closure" in k
    for a in t[2]:
        if a[0] not in ("cp", "mv"):
            continue
        c = B.same_value(a)
        if c is None:
            continue
        if c[0] <= B.b["argc"] and c[0] > 0:
            if closure and c[0] > 1:
                return True
            if not closure and c[1] and not re.match(r"&?('\w+ )?(mut )?(str|String|bool|usize|[\w:]*Formatter)", B.ty(a[1][0])):
                return True      # a part of what was given
            continue
        seen, calls = B.slice([a[1]])
        if any(B.name(q) not in SAME and not re.match(r"new|fmt|default", B.name(q)) for _, q in calls):
            return True
        for x in seen:
            for d in B.defs.get(x[0], ()):
                if d[1] == "rv" and d[2][0] == "bin":
                    return True
    return False


class Steps(Invariants):
    exitcap, cap = 60, 60

    def __init__(self, r, p):
        Invariants.__init__(self, r, p)

    def join_ps(self, a, b):
        return a

    def ps_key(self, ps):
        return ps

    def on_event(self, e, st, kind, d, fr, line):
        if kind in ("draw", "iterated"):
            st.ps = True


def iterators(r, w):
    """what is iterated over by callers: a step that gives something out has used something up"""
    p = r.p
    n = 0
    for k, b in sorted(p.bodies.items()):
        B = w.bodies.get(k)
        if B is None or b["argc"] < 1 or not re.search(r"::next(_\w+)?$", b["path"]) or not B.ty(1).startswith("&mut") or not re.match(r"(\w+::)*Option<", B.ty(0)):
            continue
        if any(B.name(t) not in ("next", "next_back") and B.callee(t) not in w.bodies and any(x[0] == 1 for x in w.draws_of(B, t)) for _, t in B.calls()):
            n += 1
            continue
        h = Steps(r, p)
        e, ex = run(p, k, h)
        n += 1
        inner = re.sub(r"^&('\w+ )?mut ", "", B.ty(1)).split("<")[0]
        key = next((a for a in p.adts if a.replace("lumberjack::", "") == inner or a == inner), None)
        nf = len(p.adts[key]["variants"][0]["f"]) if key and "f" in p.adts[key]["variants"][0] else 6
        for v, st in ex:
            v = e.deep(st, v)
            d = e.discr(st, v)
            if d == 0 or st.ps:
                continue
            now = [e.deep(st, e.load(st, T("P", "self"), (("f", 0, i, key),))) for i in range(nf)]
            was = [T("fld", T("sym", "self"), 0, i) for i in range(nf)]
            changed = [x for x, y in zip(now, was) if strip(x) != y and strip(x).op != "it"]
            if d is None and not changed:
                # passed on from somewhere else
                continue
            r.ob(bool(changed), "%s:step" % b["path"], "gives out an item without having taken anything: a caller iterating over it never gets to the end", "%s:%s" % (b["file"], b["line"]))
    r.count("iteration steps", n)


def strip(x):
    while isinstance(x, Term) and x.op == "ver":
        x = x.a[0]
    return x


@check("C12", "termination argument per loop on the compiler's control-flow graphs (MIR): natural loops, reference and move resolution, slices of the exit conditions; every cycle through a loop head must pass an edge or block that uses something up; "
              "recursive calls found in the call graph must go down; abstract interpretation of every next() for items given out without a draw", "other",
       "Measures: items taken from a source made outside the loop, monotone counters the exit looks at, climbing or shrinking values, edits of the tree the exit looks at. Assumes that trees have no cycles (C14), that library iterators over finite things are finite, "
       "and that closures given by the caller return. The inner loop of projectivize, whose end depends on spans shrinking, is left undecided and listed in the evidence.")
def c12(r):
    p = r.p
    w = World(r, p)
    r.rule("every way round a loop takes an item from a source made outside the loop and leaves it when there is none, moves a counter the exit looks at, climbs, shrinks what the exit looks at, or edits the tree the exit looks at")
    r.rule("a recursive call passes on a part of what it was given, or comes after something was taken from it")
    r.rule("an iterator that gives out an item has used something up")
    r.rule("no source without an end is read to its end")
    for k, B in sorted(w.bodies.items()):
        for h, blocks in sorted(B.cfg.heads.items()):
            r.count("loops")
            L = Loop(w, B, h, blocks)
            verdict, why, kinds = L.judge()
            for x in kinds:
                r.count("loops that end because something " + x)
            where = "%s:%s" % (B.b["file"], min([B.b["blocks"][i]["l"] for i in blocks if B.b["blocks"][i]["l"] > 1] or [1]))
            if verdict == "trusted":
                r.count("loops left undecided")
                r.sample("undecided: loop in %s (%s)" % (B.b["path"], where))
                continue
            r.ob(verdict == "ok", "%s:loop:%s" % (B.b["path"], (why or "")[:40]), "loop in %s: %s" % (B.b["path"], why), where)
    recursion(r, w)
    sources(r, w)
    iterators(r, w)
    r.floor("loops", r.counts.get("loops", 0), 30)
    r.floor("iteration steps", r.counts.get("iteration steps", 0), 4)
