"""C18: callers cannot reach the tree's internal bookkeeping."""
import re
from rt import *
from terms import *
from c_guard import param_name

GRAPH = "petgraph::graph_impl::stable_graph::StableGraph"


def holds(p, T, ty, want, depth=0, seen=None):
    """does a value of this type own (by value) one of the wanted types"""
    seen = seen if seen is not None else set()
    t = T[ty]
    if t.get("key") in want:
        return True
    if depth > 8 or t["k"] in ("ref", "ptr", "fndef", "dyn", "param"):
        return False
    if t["k"] == "adt" and t["key"] in p.adts and p.adts[t["key"]].get("local"):
        if t["key"] in seen:
            return False
        seen.add(t["key"])
        a = p.adts[t["key"]]
        return any(holds(p, a["T"], f["ty"], want, depth + 1, seen) for v in a["variants"] for f in v["f"])
    for x in t.get("args", []) or []:
        if isinstance(x, int) and holds(p, T, x, want, depth + 1, seen):
            return True
    return False


def mut_targets(p, T, ty, depth=0, seen=None):
    """types a caller gets mutable access to through a value of this type"""
    seen = seen if seen is not None else set()
    t = T[ty]
    if depth > 8:
        return
    if t["k"] in ("ref", "ptr"):
        if t.get("mut"):
            yield (T, t["to"])
        for x in mut_targets(p, T, t["to"], depth + 1, seen):
            yield x
        return
    if t["k"] == "adt":
        if re.search(r"(Mut|Drain|Entry)(::|$)", t["path"].split("::")[-1]):
            for x in t.get("args", []):
                if isinstance(x, int):
                    yield (T, x)
        if t["key"] in p.adts and p.adts[t["key"]].get("local") and t["key"] not in seen:
            seen.add(t["key"])
            a = p.adts[t["key"]]
            for v in a["variants"]:
                for f in v["f"]:
                    for x in mut_targets(p, a["T"], f["ty"], depth + 1, seen):
                        yield x
    if t["k"] == "dyn":
        for m in re.finditer(r"&(?:'\w+ )?mut ([\w:]+)", t["s"]):
            for i, u in enumerate(T):
                if u["k"] == "adt" and u["path"] == m.group(1):
                    yield (T, i)
                    break
    for x in t.get("args", []) or []:
        if isinstance(x, int):
            for y in mut_targets(p, T, x, depth + 1, seen):
                yield y


@check("C18", "visibility and type-signature query over the type-checked crate plus effect analysis of exported setters", "other",
       "Decides, for every externally callable function and every field of the crate, that no mutable access to bookkeeping escapes; "
       "values a caller obtains by cloning nodes are outside the rule.")
def c18(r):
    p = r.p
    R = p.R
    r.rule("no public field and no externally callable function result gives mutable access to a value that owns a span, position, node, edge or tree bookkeeping; "
           "no exported function stores a caller-chosen value into a tree's root or counters or a node's span; no exported function assembles a Tree from caller-supplied bookkeeping")
    bookkeeping = {R.tree_key, R.node_key, R.nt_key, R.t_key, R.span_key, R.edge_key, GRAPH}
    # R1 fields
    nf = 0
    for key in (R.tree_key, R.nt_key, R.t_key):
        a = p.adts[key]
        for v in a["variants"]:
            for f in v["f"]:
                nf += 1
                r.ob(not f["pub"], "field:%s.%s" % (a["path"], f["n"]), "field %s of %s is public" % (f["n"], a["path"]), "%s:%s" % (a["file"], a["line"]))
    a = p.adts[R.span_key]
    for f in a["variants"][0]["f"]:
        nf += 1
        if re.search("Option|Set", a["T"][f["ty"]]["s"]):
            r.ob(not f["pub"], "field:%s.%s" % (a["path"], f["n"]), "the skipped positions of a span are public", "%s:%s" % (a["file"], a["line"]))
    r.floor("fields", nf, 12)
    # no interior mutability hidden in the bookkeeping
    for key in (R.tree_key, R.nt_key, R.t_key, R.span_key, R.edge_key):
        a = p.adts[key]
        for v in a["variants"]:
            for f in v["f"]:
                s = a["T"][f["ty"]]["s"]
                r.ob(not re.search(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w+|OnceCell)\b", s), "cell:%s.%s" % (a["path"], f["n"]),
                     "field %s of %s can be changed through a shared reference (%s)" % (f["n"], a["path"], s), a["file"])
    # R2 signatures
    exported = [k for k, b in p.bodies.items() if "{closure" not in k and b["crate"] == "lumberjack" and (b.get("exported") or b.get("reachable"))]
    r.floor("exported_functions", len(exported), 100)
    for k in sorted(exported):
        b = p.bodies[k]
        T = b["T"]
        where = "%s:%s" % (b["file"], b["line"])
        for (TT, t) in mut_targets(p, T, b["output"]):
            tt = TT[t]
            if tt.get("key") == R.tree_key and False:
                continue
            bad = holds(p, TT, t, bookkeeping) or hidden_part(p, b, TT, t)
            r.ob(not bad, "mutable-access:%s->%s" % (b["path"], tt["s"]), "%s hands out mutable access to %s, which owns tree bookkeeping" % (b["path"], tt["s"]), where)
        # R3 constructors from parts
        if mentions_key(T, b["output"], R.tree_key):
            for i, ty in enumerate(b["inputs"]):
                r.ob(not mentions_key(T, ty, GRAPH), "constructor:%s" % b["path"], "%s builds a Tree from a caller-supplied graph" % b["path"], where)
        # closures of the caller receive only the tree itself mutably
        for bl in b["blocks"]:
            for c in calls_of(bl):
                f = c[1][1] if c[1][0] == "fn" else None
                if f and (f.get("trait") or "").startswith("core::ops::function::Fn") and not f.get("r"):
                    for a in f["args"][1:]:
                        if not isinstance(a, int):
                            continue
                        for (TT, t) in mut_targets(p, T, a):
                            if TT[t].get("key") == R.tree_key:
                                continue
                            r.ob(not (holds(p, TT, t, bookkeeping)), "callback:%s" % b["path"], "%s lends %s mutably to a caller's closure" % (b["path"], TT[t]["s"]), where)
    # R4 setters
    nset = 0
    for k in sorted(exported):
        b = p.bodies[k]
        if b.get("derived"):
            continue
        T = b["T"]
        muts = []
        for i, ty in enumerate(b["inputs"]):
            t = T[ty]
            if t["k"] == "ref" and t.get("mut") and T[t["to"]].get("key") in (R.tree_key, R.node_key, R.nt_key, R.t_key, R.span_key):
                muts.append((i, T[t["to"]]["key"]))
        if not muts:
            continue
        nset += 1
        if any(key == R.tree_key for i, key in muts):
            check_tree_setter(r, p, k, b)
        else:
            check_node_setter(r, p, k, b, muts)
    r.floor("mutators", nset, 25)


def hidden_part(p, b, TT, t):
    """a bare field type of the bookkeeping (usize, NodeIndex, Option<HashSet>) lent mutably from a tree, node or span"""
    R = p.R
    s = TT[t]["s"]
    parts = set()
    for key in (R.tree_key, R.span_key):
        a = p.adts[key]
        for f in a["variants"][0]["f"]:
            parts.add(a["T"][f["ty"]]["s"])
    parts.add("std::collections::hash::set::HashSet<usize>")
    if s not in parts and not re.search(r"HashSet<usize|BTreeSet<usize|Vec<usize", s):
        return False
    for ty in b["inputs"]:
        u = b["T"][ty]
        if u["k"] == "ref" and u.get("mut") and b["T"][u["to"]].get("key") in (R.tree_key, R.node_key, R.nt_key, R.t_key, R.span_key):
            return True
    return False


def mentions_key(T, ty, key, depth=0):
    t = T[ty]
    if t.get("key") == key:
        return True
    if depth > 6:
        return False
    if isinstance(t.get("to"), int):
        return mentions_key(T, t["to"], key, depth + 1)
    return any(isinstance(x, int) and mentions_key(T, x, key, depth + 1) for x in t.get("args", []) or [])


def calls_of(bl):
    t = bl.get("t")
    if t and t[0] == "call":
        yield t


class NodeSetter(Hooks):
    def __init__(self, p, root):
        self.p, self.root, self.hits = p, root, []

    def on_write(self, e, st, root, path, val, fr, line):
        if root is self.root:
            self.hits.append((path, val, loc(fr, line)))


def check_node_setter(r, p, k, b, muts):
    R = p.R
    for i, key in muts:
        root = T("P", param_name(b, i))
        h = NodeSetter(p, root)
        try:
            e, exits = run(p, k, h, budget=30)
        except Exception as ex:
            r.ob(False, "analysis:%s" % b["path"], "could not analyse exported mutator %s: %s" % (b["path"], ex), b["file"])
            continue
        for path, val, where in h.hits:
            r.ob(not touches_span(p, key, path), "span-setter:%s" % b["path"],
                 "exported %s changes the span or position of a node" % b["path"], where)


def touches_span(p, key, path):
    R = p.R
    if key == R.span_key or not path:
        return True
    def is_span(adt, i):
        return (adt == R.nt_key and i == R.nt_span) or (adt == R.t_key and i == R.t_span)
    if key == R.node_key:
        if len(path) == 1:
            return True
        return is_span(R.nt_key if path[0][1] == R.v_nt else R.t_key, path[1][2])
    return is_span(key, path[0][2])


class TreeSetter(Hooks):
    def __init__(self, p, root):
        self.p, self.root, self.hits = p, root, []

    def on_write(self, e, st, root, path, val, fr, line):
        R = self.p.R
        if root is self.root and path and path[0][2] in (R.t_root, R.t_n, R.t_disc):
            self.hits.append((path, val, loc(fr, line)))
        elif root is self.root and not path:
            self.hits.append((path, val, loc(fr, line)))
        elif root.op == "N":
            self.hits.append((("N",) + tuple(path), val, loc(fr, line)))


def caller_value(v):
    """a value taken from a parameter unchanged"""
    if v.op == "sym":
        return True
    if v.op in ("fld", "deref", "ref"):
        return v.op == "fld" and isinstance(v.a[0], T) and caller_value(v.a[0]) and v.a[0].a[0] not in ("self", "$self")
    return False


def check_tree_setter(r, p, k, b):
    R = p.R
    if b["path"].startswith("<") and False:
        return
    i = [i for i, ty in enumerate(b["inputs"]) if b["T"][ty]["k"] == "ref" and b["T"][b["T"][ty]["to"]].get("key") == R.tree_key][0]
    root = T("P", param_name(b, i))
    h = TreeSetter(p, root)
    try:
        e, exits = run(p, k, h, budget=120)
    except Exception as ex:
        r.ob(False, "analysis:%s" % b["path"], "could not analyse exported mutator %s: %s" % (b["path"], ex), b["file"])
        return
    for path, val, where in h.hits:
        if path and path[0] == "N":
            continue
        r.ob(not caller_value(val), "tree-setter:%s" % b["path"], "exported %s stores a caller-supplied value into the tree's bookkeeping" % b["path"], where)
