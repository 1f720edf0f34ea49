"""C05: output depends only on the input and the options."""
import re
from rt import *

UNORD = re.compile(r"(?:std|alloc|core|hashbrown|indexmap)?(?:::)?(?:collections::)?hash(?:::|_)(?:map|set)::(?:Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|"
                   r"Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference|RawIter)\b|hashbrown::(?:raw|map|set)::\w*(?:Iter|Keys|Values|Drain)\w*")
CONT = re.compile(r"\bHash(?:Map|Set)\b|hashbrown::")
ORDERED_DST = re.compile(r"\b(?:HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap|FixedBitSet)\b")
SEQ_DST = re.compile(r"\b(?:Vec|VecDeque|SmallVec|Box<\[)")

PASS = {"map", "filter", "filter_map", "cloned", "copied", "flat_map", "flatten", "chain", "inspect", "into_iter", "iter", "by_ref", "clone", "fuse", "as_ref",
        "peekable", "unique", "dedup_none", "iter_mut", "drain", "keys", "values", "values_mut", "union", "intersection", "difference", "symmetric_difference",
        "drop", "drop_in_place", "deref", "deref_mut", "unwrap", "expect", "and_then", "or_else", "unwrap_or_default", "ok_or_else", "as_mut", "borrow", "take_none",
        "unwrap_or", "branch", "from_residual", "into", "from", "map_or", "is_some", "is_none", "ok", "ok_or", "retain", "into_keys", "into_values", "map_into", "size_hint"}
SAFE = {"min", "max", "count", "len", "sum", "product", "any", "all", "contains", "is_empty", "eq", "ne", "is_subset", "is_superset", "is_disjoint", "all_equal",
        "minmax", "sorted", "sorted_unstable", "sorted_by", "sorted_by_key", "sorted_unstable_by", "sorted_unstable_by_key", "counts", "into_group_map_none"}
COLLECT = {"collect", "extend", "from_iter", "collect_vec", "partition", "append", "try_collect"}
CALLBACK = {"for_each", "fold", "try_fold", "try_for_each", "reduce", "rfold", "scan"}

FORBID = [
    (re.compile(r"^(?:std|core)::time::|::SystemTime|::Instant::now|^chrono::|^time::"), "the clock"),
    (re.compile(r"^std::env::(?:var|vars|var_os|vars_os|args|args_os|current_dir|temp_dir|home_dir|current_exe)"), "the environment"),
    (re.compile(r"^rand(?:_core|_chacha|_pcg|_os)?::|^fastrand::|^getrandom::|^uuid::"), "randomness"),
    (re.compile(r"^std::thread::|^rayon|^crossbeam|^std::sync::mpsc|available_parallelism"), "threads"),
    (re.compile(r"^std::process::(?:id|Command)"), "the process"),
    (re.compile(r"DefaultHasher|RandomState::new|BuildHasher|hash_one"), "a randomly seeded hash"),
    (re.compile(r"^std::fs::read_dir|::ReadDir"), "directory order"),
    (re.compile(r"fmt::Pointer|Argument::<'_>::new_pointer|new_pointer$|ptr::(?:hash|addr_eq)$|::addr$|expose_provenance|type_name|^core::ptr::eq$"), "an address"),
    (re.compile(r"^std::thread::local|LocalKey"), "thread-local state"),
    (re.compile(r"^std::panic::Location"), "a source location"),
]
CELL = re.compile(r"\b(?:Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w*)\b")


class Det(object):
    def __init__(self, r):
        self.r, self.p = r, r.p
        self.done = {}
        self._hold = {}

    # -- types
    def u(self, b, ty, taint=()):
        t = b["T"][ty]
        s = t["s"]
        if UNORD.search(s):
            return True
        for n in taint:
            if re.search(r"(?<![\w:])%s(?![\w:])" % re.escape(n), s):
                return True
        return self.adt_u(b["T"], ty)

    def adt_u(self, T, ty, depth=0):
        t = T[ty]
        if depth > 6:
            return False
        if t["k"] in ("ref", "ptr"):
            return self.adt_u(T, t["to"], depth + 1)
        if t["k"] == "adt" and t["key"] in self.p.adts and self.p.adts[t["key"]].get("local"):
            k = t["key"]
            if k not in self._hold:
                self._hold[k] = False
                a = self.p.adts[k]
                self._hold[k] = any(UNORD.search(a["T"][f["ty"]]["s"]) or self.adt_u(a["T"], f["ty"], depth + 1) for v in a["variants"] for f in v["f"])
            return self._hold[k]
        return any(isinstance(x, int) and self.adt_u(T, x, depth + 1) for x in t.get("args", []) or [])

    def holds_hash(self, T, ty, depth=0, seen=None):
        seen = set() if seen is None else seen
        t = T[ty]
        if CONT.search(t["s"]):
            return True
        if depth > 8:
            return False
        if t["k"] in ("ref", "ptr"):
            return self.holds_hash(T, t["to"], depth + 1, seen)
        if t["k"] == "adt" and t["key"] in self.p.adts and self.p.adts[t["key"]].get("local") and t["key"] not in seen:
            seen.add(t["key"])
            a = self.p.adts[t["key"]]
            if any(self.holds_hash(a["T"], f["ty"], depth + 1, seen) for v in a["variants"] for f in v["f"]):
                return True
        return any(isinstance(x, int) and self.holds_hash(T, x, depth + 1, seen) for x in t.get("args", []) or [])

    def oty(self, b, o):
        """type index of an operand when it is a whole local or a constant"""
        if o[0] in ("cp", "mv"):
            pl = o[1]
            if not pl[1]:
                return b["locals"][pl[0]]
            last = pl[1][-1]
            if last != "*" and last[0] == "f" and isinstance(last[2], int):
                return last[2]
            if last == "*":
                t = b["T"][b["locals"][pl[0]]]
                if len(pl[1]) == 1 and t["k"] == "ref":
                    return t["to"]
            return b["locals"][pl[0]]
        return None

    # -- one body
    def analyse(self, key, taint=()):
        taint = tuple(sorted(set(taint)))
        if (key, taint) in self.done:
            return
        self.done[(key, taint)] = True
        b = self.p.bodies[key]
        if b.get("derived"):
            return
        r = self.r
        cfg = self.p.cfg(key)
        r.count("bodies_scanned")
        out = b["locals"][0]
        if self.u(b, out, taint) and not ("{closure" in key):
            os_ = b["T"][b["output"]]["s"] if b.get("output") is not None else ""
            if b.get("exported") or not self.u(b, b["output"], taint):
                r.bad("%s:returns-hash-order" % b["path"], "%s hands out elements in hash-table order (%s)" % (b["path"], os_), "%s:%s" % (b["file"], b["line"]))
        for i, bl in enumerate(b["blocks"]):
            if bl["c"] or i not in cfg.rpo:
                continue
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "cast":
                    kind = str(s[2][1])
                    ot = self.oty(b, s[2][2])
                    if "Unsize" in kind and ot is not None and self.u(b, ot, taint) and "dyn" in b["T"][b["locals"][s[1][0]]]["s"]:
                        r.bad("%s:dyn-hash-order" % b["path"], "%s hides hash-table iteration behind a trait object" % b["path"], "%s:%s" % (b["file"], s[3]))
                    if "ExposeProvenance" in kind or "ExposeAddress" in kind or ("Transmute" in kind and ot is not None and b["T"][ot]["k"] in ("ref", "ptr")
                            and b["T"][b["locals"][s[1][0]]]["k"] in ("uint", "int")):
                        r.bad("%s:address" % b["path"], "%s turns an address into a number" % b["path"], "%s:%s" % (b["file"], s[3]))
            t = bl["t"]
            if t[0] == "call":
                self.call(b, key, cfg, i, t, bl["l"], taint)

    def call(self, b, key, cfg, i, t, line, taint):
        r = self.r
        where = "%s:%s in %s" % (b["file"], line, b["path"])
        f = t[1]
        if f[0] != "fn":
            return
        info = f[1]
        path = info.get("rpath") or info["path"]
        r.count("calls_scanned")
        for rx, what in FORBID:
            if rx.search(path) or rx.search(info["path"]):
                r.bad("%s:%s" % (b["path"], what.replace(" ", "-")), "%s consults %s (%s)" % (b["path"], what, path), where)
        name = info.get("name") or path.split("::")[-1]
        if re.search(r"fmt::.*Argument.*::new_(?:debug|pointer)", path) or name in ("new_debug", "debug_set", "debug_map", "debug_list"):
            for o in t[2]:
                ot = self.oty(b, o)
                if ot is not None and self.holds_hash(b["T"], ot):
                    r.bad("%s:debug" % b["path"], "%s formats a value holding a hash table with {:?}" % b["path"], where)
            for a in info.get("rargs") or info.get("args") or []:
                if isinstance(a, int) and self.holds_hash(b["T"], a):
                    r.bad("%s:debug" % b["path"], "%s formats a value holding a hash table with {:?}" % b["path"], where)
        tys = [self.oty(b, o) for o in t[2]]
        un = [ty is not None and self.u(b, ty, taint) for ty in tys]
        # a whole hash table handed to something that iterates it
        tr = info.get("trait") or ""
        if re.search(r"iter::traits::(?:iterator::Iterator|collect::(?:Extend|FromIterator))$", tr) or "itertools" in path:
            for j, ty in enumerate(tys):
                if ty is not None and CONT.search(b["T"][ty]["s"]) and not un[j] and not (name == "extend" and j == 0):
                    un[j] = True
        if name in ("from_iter", "append") or (name in ("from", "into") and SEQ_DST.search(b["T"][b["locals"][t[3][0]]]["s"])):
            for j, ty in enumerate(tys):
                if ty is not None and CONT.search(b["T"][ty]["s"]) and SEQ_DST.search(b["T"][b["locals"][t[3][0]]]["s"]):
                    un[j] = True
        if not any(un):
            return
        r.count("hash_iterations_judged")
        r.sample("%s: %s" % (where, path))
        callee = info.get("r")
        if callee in self.p.bodies and "{closure" not in callee:
            cb = self.p.bodies[callee]
            names = []
            for j, x in enumerate(un):
                if x and j < len(cb.get("inputs") or []):
                    ct = cb["T"][cb["inputs"][j]]
                    if not self.u(cb, cb["inputs"][j]):
                        names.append(ct["s"].lstrip("&").replace("mut ", ""))
            if names:
                self.analyse(callee, names)
                for k2 in self.p.bodies:
                    if k2.startswith(callee + "::{closure"):
                        self.analyse(k2, names)
            return
        dst = b["T"][b["locals"][t[3][0]]]["s"] if not t[3][1] else ""
        if name in SAFE:
            if name.startswith("sorted_") and name != "sorted_unstable" and not self.total(b, t):
                r.bad("%s:ties" % b["path"], "%s sorts hash-table elements by a key that leaves ties in hash order (%s)" % (b["path"], name), where)
            return
        if name in ("next", "next_back", "nth", "last", "find", "position", "find_map", "peek", "get"):
            if name == "next":
                why = self.loop(b, key, cfg, i, t, taint)
                if why is None:
                    return
                r.bad("%s:loop-order" % b["path"], "%s iterates a hash table and %s" % (b["path"], why), where)
                return
            r.bad("%s:%s" % (b["path"], name), "%s takes an element by hash-table order (%s)" % (b["path"], name), where)
            return
        if name in COLLECT:
            if name in ("extend", "append"):
                d0 = b["T"][tys[0]]["s"] if tys and tys[0] is not None else ""
            else:
                d0 = dst
            if ORDERED_DST.search(d0) and not SEQ_DST.search(re.sub(r"Hash(Map|Set)<.*", "", d0)):
                return
            loc_ = t[3][0] if name not in ("extend", "append") else self.ref_root(b, i, t[2][0])
            if SEQ_DST.search(d0) and loc_ is not None and self.sorted_after(b, cfg, loc_, i):
                return
            r.bad("%s:%s-order" % (b["path"], name), "%s gathers hash-table elements into %s without sorting them" % (b["path"], d0 or "a value"), where)
            return
        if name in CALLBACK:
            why = self.callback(b, t, taint)
            if why:
                r.bad("%s:%s-order" % (b["path"], name), "%s runs %s over a hash table and %s" % (b["path"], name, why), where)
            return
        if name in PASS:
            # the adaptor's closure must not have order-dependent effects either
            why = self.callback(b, t, taint) if name in ("map", "filter", "filter_map", "flat_map", "inspect", "retain") else None
            if why:
                r.bad("%s:%s-order" % (b["path"], name), "%s runs %s over a hash table and %s" % (b["path"], name, why), where)
            return
        r.bad("%s:%s" % (b["path"], name), "%s feeds hash-table iteration to %s" % (b["path"], path), where)

    # -- helpers on one body
    def ref_root(self, b, i, o):
        """the local a `&mut x` operand refers to"""
        for _ in range(6):
            if o[0] not in ("cp", "mv"):
                return None
            l, pr = o[1]
            src = None
            for s in b["blocks"][i]["s"]:
                if s[0] == "=" and s[1] == [l, []]:
                    src = s[2]
            if src is None:
                for bl in b["blocks"]:
                    for s in bl["s"]:
                        if s[0] == "=" and s[1] == [l, []]:
                            src = s[2]
            if src is None:
                return l
            if src[0] == "ref":
                base = src[2][0]
                if src[2][1] and src[2][1][0] == "*":
                    o = ["cp", [base, []]]
                    continue
                return base
            if src[0] in ("use",):
                o = src[1]
                if o[0] not in ("cp", "mv"):
                    return l
                if o[1][1]:
                    return o[1][0]
                continue
            return l
        return None

    def dominates(self, cfg, a, c):
        if a == c:
            return True
        seen, st = set(), [0]
        if a == 0:
            return True
        while st:
            x = st.pop()
            if x in seen or x == a:
                continue
            seen.add(x)
            st.extend(cfg.succ[x])
        return c not in seen

    def uses(self, o):
        if isinstance(o, list) and len(o) == 2 and o[0] in ("cp", "mv"):
            return o[1][0]
        return None

    def sorted_after(self, b, cfg, l, start):
        """every later use of local l is dominated by a sort of it"""
        al = {l}
        changed = True
        sorts, others = set(), set()
        THRU = ("deref_mut", "deref", "as_mut_slice", "borrow_mut", "as_mut", "index_mut")
        while changed:
            changed = False
            sorts, others = set(), set()
            for i, bl in enumerate(b["blocks"]):
                if bl["c"] or i not in cfg.rpo:
                    continue
                for s in bl["s"]:
                    if s[0] != "=":
                        continue
                    rv = s[2]
                    src = None
                    if rv[0] == "use":
                        src = self.uses(rv[1])
                    elif rv[0] == "ref":
                        src = rv[2][0]
                    elif rv[0] == "cast":
                        src = self.uses(rv[2])
                    else:
                        for x in rv[1:]:
                            for y in (x if isinstance(x, list) else []):
                                if self.uses(y) in al:
                                    others.add(i)
                    if src in al:
                        if s[1][1]:
                            others.add(i)
                        elif s[1][0] == 0:
                            others.add(i)
                        elif s[1][0] not in al:
                            al.add(s[1][0])
                            changed = True
                t = bl["t"]
                if t[0] == "call":
                    hit = [self.uses(o) in al for o in t[2]]
                    if any(hit):
                        nm = (t[1][1].get("name") or "") if t[1][0] == "fn" else ""
                        if i == start and not (nm.startswith("sort")):
                            continue
                        if nm.startswith("sort") and hit[0]:
                            if nm in ("sort", "sort_unstable") or self.total(b, t):
                                sorts.add(i)
                        elif t[1][0] == "fn" and "sort" in t[1][1]["path"] and any(hit):
                            sorts.add(i)
                        elif nm in THRU and hit[0] and not t[3][1]:
                            if t[3][0] not in al:
                                al.add(t[3][0])
                                changed = True
                        elif nm in ("len", "is_empty", "drop", "drop_in_place", "extend", "push", "reserve", "with_capacity", "dedup", "append"):
                            pass
                        else:
                            others.add(i)
                elif t[0] == "return" and 0 in al:
                    others.add(i)
        if not sorts:
            return False
        return all(any(s != o and self.dominates(cfg, s, o) for s in sorts) or (o not in sorts and any(self.dominates(cfg, s, o) for s in sorts)) for o in others)

    def effect_of_call(self, b, i, t, inner, taint):
        """why a call inside an iteration makes the result order-dependent, or None. inner: locals that live inside one iteration only"""
        f = t[1]
        info = f[1] if f[0] == "fn" else None
        name = (info.get("name") or info["path"].split("::")[-1]) if info else "?"
        if info is None:
            return "calls a function value"
        for j, o in enumerate(t[2]):
            ty = self.oty(b, o)
            if ty is None:
                continue
            tt = b["T"][ty]
            if tt["k"] != "ref" or not tt.get("mut"):
                continue
            if self.u(b, ty, taint):
                continue
            root = self.ref_root(b, i, o)
            if root in inner:
                continue
            ts = tt["s"]
            if name in ("insert", "remove", "extend", "entry", "visit", "set", "put", "or_insert", "or_default", "or_insert_with") and ORDERED_DST.search(ts):
                continue
            if name in ("push", "extend", "push_back") and SEQ_DST.search(ts):
                cfgk = [k for k, x in self.p.bodies.items() if x is b][0]
                if root is not None and self.sorted_after(b, self.p.cfg(cfgk), root, i):
                    continue
                return "appends to a sequence that is not sorted afterwards"
            if name in ("deref_mut", "as_mut", "unwrap", "borrow_mut", "iter_mut", "get_mut", "index_mut", "or_insert"):
                continue
            if name in ("next",):
                continue
            return "calls %s, which changes state outside the iteration" % info["path"]
        return None

    def assigns(self, b, blocks):
        for i in blocks:
            bl = b["blocks"][i]
            for s in bl["s"]:
                if s[0] == "=":
                    yield i, s[1], s[2], s[3]
            if bl["t"][0] == "call":
                yield i, bl["t"][3], ["call", bl["t"]], bl["l"]

    def loop(self, b, key, cfg, i, t, taint):
        loops = [(len(bo), h, bo) for h, bo in cfg.heads.items() if i in bo]
        if not loops:
            return "uses only the first element it yields"
        _, h, bo = min(loops, key=lambda x: x[0])
        it = self.ref_root(b, i, t[2][0])
        for j, pl, rv, ln in self.assigns(b, bo):
            if pl == [it, []]:
                return "restarts the iteration inside the loop"
        live = cfg.live[h]
        inner = {l for l in range(len(b["locals"])) if l not in live}
        # outside values updated inside the loop
        const = {}
        mutates = False
        for j, pl, rv, ln in self.assigns(b, bo):
            l = pl[0]
            if l in inner or l == it:
                # a store through a reference made inside the iteration may reach outside: calls cover &mut arguments
                if "*" in pl[1] and rv[0] != "call":
                    if not self.commutes(b, bo, pl, rv) and not self.fresh_ref(b, bo, l):
                        return "stores through a reference in a way that depends on the order"
                continue
            mutates = True
            if self.commutes(b, bo, pl, rv):
                continue
            c = rv[1][1] if rv[0] == "use" and rv[1][0] == "c" else None
            if c is not None:
                k = str(pl)
                if const.setdefault(k, str(c)) == str(c):
                    continue
            return "keeps a value chosen by the order of iteration"
        for j in bo:
            tt = b["blocks"][j]["t"]
            if tt[0] == "call" and j != i:
                why = self.effect_of_call(b, j, tt, inner, taint)
                if why:
                    return why
                if any(self.oty(b, o) is not None and b["T"][self.oty(b, o)]["k"] == "ref" and b["T"][self.oty(b, o)].get("mut") and self.ref_root(b, j, o) not in inner
                       and not self.u(b, self.oty(b, o), taint) for o in tt[2]):
                    mutates = True
        # exits other than exhaustion
        disc = None
        nx = t[4]
        exits = [(v, w) for v in bo for w in cfg.succ[v] if w not in bo]
        sw = self.exhaust_switch(b, cfg, nx, t[3][0])
        for v, w in exits:
            if v == sw:
                continue
            if self.diverges(cfg, b, w):
                continue
            assigned = {pl[0] for j, pl, rv, ln in self.assigns(b, bo) if not (rv[0] == "use" and rv[1][0] == "c")}
            if assigned & cfg.live[w]:
                return "leaves the loop with a value that depends on the order"
            if mutates:
                return "leaves the loop early after changing state"
        return None

    def fresh_ref(self, b, bo, l):
        return False

    def exhaust_switch(self, b, cfg, nx, dst):
        seen = set()
        while nx is not None and nx not in seen:
            seen.add(nx)
            t = b["blocks"][nx]["t"]
            if t[0] == "switch":
                return nx
            s = cfg.succ[nx]
            nx = s[0] if len(s) == 1 else None
        return None

    def diverges(self, cfg, b, w):
        seen, st = set(), [w]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if b["blocks"][x]["t"][0] == "return":
                return False
            st.extend(cfg.succ[x])
        return True

    def commutes(self, b, blocks, pl, rv):
        OPS = ("Add", "Sub", "BitOr", "BitAnd", "BitXor", "Mul", "AddWithOverflow", "SubWithOverflow", "MulWithOverflow", "AddUnchecked")
        if rv[0] == "bin" and rv[1] in OPS:
            return any(o[0] in ("cp", "mv") and o[1] == pl for o in rv[2:4])
        if rv[0] == "use" and rv[1][0] in ("cp", "mv"):
            l, pr = rv[1][1]
            if pr and pr[-1] != "*" and pr[-1][0] == "f" and pr[-1][1] == 0:
                for j, p2, r2, ln in self.assigns(b, blocks):
                    if p2 == [l, []] and r2[0] == "bin" and r2[1] in OPS:
                        return any(o[0] in ("cp", "mv") and o[1] == pl for o in r2[2:4])
            if not pr:
                for j, p2, r2, ln in self.assigns(b, blocks):
                    if p2 == [l, []]:
                        return self.commutes(b, blocks, pl, r2) if r2[0] != "use" else False
        if rv[0] == "call":
            f = rv[1][1]
            nm = f[1].get("name") if f[0] == "fn" else None
            if nm in ("min", "max", "bitor", "bitand", "add", "wrapping_add", "saturating_add"):
                return any(self.copy_of(b, blocks, o) == pl for o in rv[1][2])
        return False

    def copy_of(self, b, blocks, o):
        if o[0] not in ("cp", "mv"):
            return None
        l = o[1]
        for j, p2, r2, ln in self.assigns(b, blocks):
            if p2 == l and r2[0] == "use" and r2[1][0] in ("cp", "mv"):
                return r2[1][1]
        return l

    def total(self, b, t):
        """does the comparator given to a sort tell all distinct elements apart: it compares whole elements or their (unique) keys"""
        for o in t[2]:
            ty = self.oty(b, o)
            tt = b["T"][ty] if ty is not None else None
            if not tt or tt["k"] != "closure" or tt.get("key") not in self.p.bodies:
                continue
            cb = self.p.bodies[tt["key"]]
            der = {i: () for i in range(2, cb["argc"] + 1)}
            ch = True
            while ch:
                ch = False
                for bl in cb["blocks"]:
                    for s in bl["s"]:
                        if s[0] != "=" or s[1][1]:
                            continue
                        src = s[2][1][1] if s[2][0] == "use" and s[2][1][0] in ("cp", "mv") else (s[2][2] if s[2][0] == "ref" else None)
                        if src and src[0] in der and s[1][0] not in der:
                            pr = [e for e in src[1] if e != "*"]
                            if all(e[0] == "f" and e[1] == 0 for e in pr):
                                der[s[1][0]] = ()
                                ch = True
                    ct = bl["t"]
                    if ct[0] == "call" and ct[1][0] == "fn" and (ct[1][1].get("name") in ("deref", "clone", "to_owned", "borrow", "as_ref", "cloned")) and self.uses(ct[2][0]) in der and ct[3][0] not in der:
                        der[ct[3][0]] = ()
                        ch = True
            if 0 in der and not tt["s"].endswith("Ordering"):
                return True
            for bl in cb["blocks"]:
                ct = bl["t"]
                if ct[0] == "call" and ct[1][0] == "fn" and ct[1][1].get("name") in ("cmp", "partial_cmp") and all(self.uses(x) in der for x in ct[2]):
                    return True
        return False

    def callback(self, b, t, taint):
        for o in t[2]:
            ty = self.oty(b, o)
            tt = b["T"][ty] if ty is not None else None
            ck = None
            if tt and tt["k"] == "closure":
                ck = tt.get("key")
            if ck not in self.p.bodies:
                continue
            cb = self.p.bodies[ck]
            ccfg = self.p.cfg(ck)
            inner = set(range(len(cb["locals"]))) - {1}
            for j, pl, rv, ln in self.assigns(cb, sorted(ccfg.rpo)):
                if pl[0] == 1 and "*" in pl[1]:
                    if not self.commutes(cb, sorted(ccfg.rpo), pl, rv):
                        return "its closure changes captured state depending on the order"
            for j in ccfg.rpo:
                ct = cb["blocks"][j]["t"]
                if ct[0] == "call":
                    why = self.effect_of_call(cb, j, ct, {x for x in inner if x > cb["argc"]} - self.from_capture(cb), taint)
                    if why:
                        return "its closure " + why
            nm = t[1][1].get("name") if t[1][0] == "fn" else ""
            if nm in ("fold", "try_fold", "reduce", "scan"):
                # accumulator: only a commutative combination of it
                acc = 2
                good = True
                for j, pl, rv, ln in self.assigns(cb, sorted(ccfg.rpo)):
                    if pl == [0, []]:
                        ops = rv[2:4] if rv[0] == "bin" else (rv[1][2] if rv[0] == "call" else [])
                        nm2 = rv[1] if rv[0] == "bin" else (rv[1][1][1].get("name") if rv[0] == "call" and rv[1][1][0] == "fn" else None)
                        if rv[0] == "use" and rv[1][0] in ("cp", "mv"):
                            src = rv[1][1]
                            for j2, p2, r2, l2 in self.assigns(cb, sorted(ccfg.rpo)):
                                if p2 == [src[0], []] and r2[0] == "bin":
                                    nm2 = r2[1].replace("WithOverflow", "")
                        if nm2 not in ("Add", "BitOr", "BitAnd", "BitXor", "Mul", "min", "max", "AddWithOverflow"):
                            good = False
                cmp = any((rv[0] == "bin" and rv[1] in ("Lt", "Le", "Gt", "Ge")) or (rv[0] == "call" and rv[1][1][0] == "fn" and rv[1][1][1].get("name") in ("min", "max", "cmp", "lt", "gt", "le", "ge"))
                          for j, pl, rv, ln in self.assigns(cb, sorted(ccfg.rpo)))
                if not good and not cmp:
                    return "the accumulated value depends on the order"
        return None

    def from_capture(self, cb):
        out = {1}
        ch = True
        while ch:
            ch = False
            for bl in cb["blocks"]:
                for s in bl["s"]:
                    if s[0] == "=":
                        src = None
                        if s[2][0] == "use":
                            src = self.uses(s[2][1])
                        elif s[2][0] == "ref":
                            src = s[2][2][0]
                        if src in out and s[1][0] not in out:
                            out.add(s[1][0])
                            ch = True
        return out


@check("C05", "nondeterminism-source query and hash-iteration order dataflow over typed MIR", "other",
       "Every iteration over a std hash table in the workspace must end in an order-insensitive consumer; other sources of nondeterminism are forbidden by path. "
       "Third-party crates (petgraph, pest, clap, conllx, stdinout) are trusted to be deterministic.")
def c05(r):
    p = r.p
    r.rule("Every value whose type is a hash-table iterator (or a hash table given to an iterating function) is consumed only by order-insensitive operations: "
           "min/max/count/any/all, collection into a set, map or subsequently sorted sequence, or a loop whose body commutes and leaves no order-dependent value")
    r.rule("No call to clocks, environment, randomness, threads, process ids, seeded hashers, directory listings or addresses; no mutable or interior-mutable static; no {:?} of a hash table")
    d = Det(r)
    for k in sorted(p.bodies):
        d.analyse(k)
    for k, s in sorted(p.statics.items()):
        r.count("statics_scanned")
        T_ = None
        for c, j in p.crates.items():
            if k in j["statics"]:
                T_ = j["types"]
        ts = T_[s["ty"]]["s"] if T_ is not None and s.get("ty") is not None else ""
        r.ob(not s.get("mut") and not CELL.search(ts), "static:" + k, "static %s is mutable (%s): results can depend on earlier calls" % (k, ts), k)
    r.obs += r.counts.get("calls_scanned", 0)
    r.ok = r.obs - len(r.viol)
    r.floor("bodies_scanned", r.counts.get("bodies_scanned", 0), 150)
    r.floor("calls_scanned", r.counts.get("calls_scanned", 0), 1000)
