"""C01: non-projective trees are refused."""
import re
from rt import *
from terms import *


def ref_tree_param(p, b):
    """index of the first parameter that is a reference to a Tree"""
    for i, ty in enumerate(b.get("inputs") or []):
        t = b["T"][ty]
        if t["k"] == "ref" and b["T"][t["to"]].get("key") == p.R.tree_key:
            return i, bool(t.get("mut"))
    return None, None


def mentions(p, b, ty, keys, depth=0):
    t = b["T"][ty]
    if t.get("key") in keys:
        return True
    if depth > 5:
        return False
    for a in t.get("args", []) or []:
        if isinstance(a, int) and mentions(p, b, a, keys, depth + 1):
            return True
    if "to" in t and isinstance(t["to"], int):
        return mentions(p, b, t["to"], keys, depth + 1)
    return False


def guard_term(p, treeval):
    """the condition is_projective() tests, for a given tree value"""
    k = body(p, r"^tree::Tree::is_projective$")
    e = Engine(p, Hooks(), 30)
    st = St()
    st.mem[T("P", "g")] = treeval
    fr = e.new_frame(k, None, 0)
    outs = e.exec_frame(fr, [T("ref", T("P", "g"), ())], st)
    return e, outs


class GuardHooks(Hooks):
    def __init__(self, r, key, guard, mutating):
        self.r, self.key, self.guard, self.mutating = r, key, guard, mutating
        self.early = []

    def known(self, e, st):
        return e.evalb(st, self.guard) is True

    def on_write(self, e, st, root, path, val, fr, line):
        if root.op in ("N", "E") or (root.op == "P" and root.a[0] in ("self", "tree") and self.mutating and root is self.tree_root):
            self.r.count("mutation_sites_checked")
            if not self.known(e, st):
                self.early.append(("mutation of the tree", loc(fr, line)))

    tree_root = None

    def on_event(self, e, st, name, args, fr, line):
        if name in ("add_node", "add_edge", "remove_node", "remove_edge", "graph_other"):
            if not self.known(e, st):
                self.early.append(("%s on the tree" % name, loc(fr, line)))
        if name == "write":
            self.r.count("write_sites_checked")
            if not self.known(e, st):
                self.early.append(("output written", loc(fr, line)))
        return None


@check("C01", "guard-dominance dataflow over MIR (interprocedural abstract interpretation with branch facts)", "other",
       "Decides that on every path of every bracket/encoding producer the projectivity guard holds before any output, mutation or Ok return; "
       "trusts that the guard counter is truthful (property C02).")
def c01(r):
    p = r.p
    R = p.R
    r.rule("Every Ok exit, every write to the output and every write to the tree in a producer of bracketed output or tag encodings "
           "is reached only with the branch fact is_projective(tree)=true for the same tree; refusal is an Err value, not a panic")
    enc = {k for k, a in p.adts.items() if a.get("local") and re.search(r"::(AbsoluteEncoding|RelativeEncoding)$", a["path"])}
    entries = {}
    for rx in (r"^io::ptb::PTBFormat::tree_to_string$", r"^<io::ptb::PTBWriter<.*> as io::WriteTree>::write_tree$",
               r"^<tree::Tree as io::encode::Encode>::encode_absolute$", r"^<tree::Tree as io::encode::Encode>::encode_relative$",
               r"^<tree::Tree as io::encode::Encode>::annotate_absolute$", r"^<tree::Tree as io::encode::Encode>::annotate_relative$"):
        entries[body(p, rx)] = True
    # any other externally callable function that turns a tree into an encoding or, on the bracket side, into text
    for k in lib_exports(p):
        b = p.bodies[k]
        i, mut = ref_tree_param(p, b)
        if i is None or k in entries:
            continue
        if mentions(p, b, b["output"], enc):
            entries[k] = True
        elif (b.get("impl_self") is not None and re.search(r"ptb::PTB(Format|Writer)", b["T"][b["impl_self"]].get("key") or "")):
            entries[k] = True
        elif "io::encode::Encode" in b["path"]:
            entries[k] = True
    for k in sorted(entries):
        b = p.bodies[k]
        i, mut = ref_tree_param(p, b)
        if i is None:
            continue
        nm = b["path"]
        # tree parameter as the engine names it
        e0 = Engine(p, Hooks(), 10)
        holder = {}

        def setup(e, st, vals, i=i, holder=holder):
            holder["root"] = vals[i].a[0]
        e1 = Engine(p, Hooks(), 10)
        # discover the guard for this parameter
        st = St()
        hk = GuardHooks(r, k, None, mut)
        root = T("P", param_name(b, i))
        tv = T("sym", param_name(b, i))
        eg, outs = guard_term(p, tv)
        if not r.ob(len(outs) == 1, "guard-not-a-test", "is_projective() is not a single test of the tree's bookkeeping", "Tree::is_projective"):
            return
        hk.guard = outs[0][0]
        hk.tree_root = root
        r.ob(guard_is_zero_test(p, hk.guard, tv), "guard-term", "is_projective() does not test that the number of discontinuous nonterminals is zero (tests %s)" % show(hk.guard), "Tree::is_projective")
        e, exits = run(p, k, hk)
        r.count("entries")
        r.count("states", e.n_states)
        r.floor_hit = True
        nok = nerr = 0
        for v, s in exits:
            o = is_ok(e, s, v) if is_result(p, b) else True
            if o is False:
                nerr += 1
                continue
            nok += 1
            r.ob(e.evalb(s, hk.guard) is True, "%s:ok-without-guard" % nm, "%s can succeed without the tree having been found projective" % nm, "%s:%s" % (b["file"], b["line"]))
        r.ob(nok > 0 and (nerr > 0 or not is_result(p, b)), "%s:no-refusal" % nm, "%s has no Ok path or no refusing path (%d Ok exits, %d Err exits)" % (nm, nok, nerr), "%s:%s" % (b["file"], b["line"]))
        # on every non-projective state the function must return (not panic, not succeed)
        for kind, where in sorted(set(hk.early)):
            r.ob(False, "%s:early:%s" % (nm, kind.replace(" ", "-")), "%s: %s before the tree was found projective" % (nm, kind), where)
        r.sample("%s: %d Ok exit states, %d Err exit states, guard %s" % (nm, nok, nerr, show(hk.guard)))
    r.floor("producers", len(entries), 6)


def param_name(b, i):
    for n, pl in b["names"]:
        if pl[0] == i + 1 and not pl[1]:
            return n
    return "a%d" % (i + 1)


def is_result(p, b):
    return b["T"][b["output"]].get("key") == RES


def guard_is_zero_test(p, g, tv):
    c = T("fld", tv, 0, p.R.t_disc)
    return g is ieq(c, ZERO) or g is eqv(c, ZERO) or g is lt(c, const_int(1)) or g is neg(lt(ZERO, c))
