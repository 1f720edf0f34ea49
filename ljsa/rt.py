"""Reporting, role discovery and engine helpers shared by all checks."""
import json, os, re, sys, time
import facts as factmod
import engine
from engine import Engine, Hooks, Program, Budget
from terms import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}


def check(pid, technique, level, note, thorough=False):
    def deco(f):
        CHECKS[pid] = dict(fn=f, technique=technique, level=level, note=note)
        return f
    return deco


class Anchor(Exception):
    """a construct the property is about no longer exists"""


class Report(object):
    def __init__(self, pid, prog):
        self.pid = pid
        self.p = prog
        self.viol = {}
        self.obs = 0
        self.ok = 0
        self.counts = {}
        self.samples = []
        self.rules = []
        self.notes = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)

    def bad(self, key, msg, where=""):
        if key not in self.viol:
            self.viol[key] = (msg, str(where))

    def ob(self, good, key, msg, where=""):
        """one obligation"""
        self.obs += 1
        if good:
            self.ok += 1
        else:
            self.bad(key, msg, where)
        return good

    def floor(self, name, n, least):
        self.counts[name] = n
        if n < least:
            self.bad("floor:" + name, "expected at least %d instances of '%s' to analyse, found %d: the construct the rule is about has disappeared" % (least, name, n))


def known(pid):
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"^known: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def keyify(s):
    return re.sub(r"\s+", "_", s)


def run_check(pid, prog=None):
    t0 = time.time()
    if prog is None:
        prog = Program(factmod.load(os.environ.get("LJ_REPO", "/repo")))
    roles(prog)
    c = CHECKS[pid]
    r = Report(pid, prog)
    err = None
    try:
        c["fn"](r)
    except Anchor as a:
        r.bad("anchor:" + str(a), "anchor not found: " + str(a))
    except Exception as x:
        err = x
        if not r.viol:
            raise
    kn = known(pid)
    new = []
    kf = []
    for k, (msg, where) in sorted(r.viol.items()):
        kk = keyify(k)
        if kk in kn:
            kf.append((kk, kn[kk]))
        else:
            new.append((kk, msg, where))
    ev = os.path.join(os.environ.get("LJ_EVIDENCE", os.path.join(HERE, "evidence")))
    os.makedirs(ev, exist_ok=True)
    cov = {
        "explanation": "Static analysis of the type-checked MIR of the current working tree. Rules: " + " | ".join(r.rules),
        "obligations": r.obs,
        "discharged": r.ok,
        "samples": r.samples,
        "bodies_in_program": len(prog.bodies),
    }
    cov.update({k: v for k, v in sorted(r.counts.items())})
    if r.notes:
        cov["notes"] = r.notes
    if c["level"] == "proof":
        cov["checker_cmd"] = "python3 /verif/check.py " + pid
        cov["trusted_base"] = ["rustc nightly MIR construction", "/verif/driver", "/verif/ljsa engine and library models"]
    doc = {"property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
           "level": c["level"], "coverage": cov, "assumptions": [c["note"]], "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    for k, d in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    if new:
        rp = os.path.join(ev, pid + ".violation.txt")
        with open(rp, "w") as f:
            for k, m, w in new:
                f.write("%s\n  key: %s\n  at:  %s\n\n" % (m, k, w))
        for k, m, w in new[:12]:
            print("  %s [%s] at %s" % (m, k, w))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    elif err is not None:
        raise err
    else:
        rp = os.path.join(ev, pid + ".violation.txt")
        if os.path.exists(rp):
            os.remove(rp)
    print("OK property=%s obligations=%d %s (%.1fs)" % (pid, r.obs, r.counts, time.time() - t0))
    return 0


# ------------------------------------------------------------------ roles
class Roles(object):
    pass


def roles(p):
    """field roles of the central types, by type and by what the public accessors return"""
    R = p.R = Roles()
    R.tree_key = one(p, "adt", r"^tree::Tree$")
    R.node_key = one(p, "adt", r"^node::Node$")
    R.nt_key = one(p, "adt", r"^node::NonTerminal$")
    R.t_key = one(p, "adt", r"^node::Terminal$")
    R.span_key = one(p, "adt", r"^span::Span$")
    R.edge_key = one(p, "adt", r"^edge::Edge$")
    R.feat_key = one(p, "adt", r"^features::Features$")
    def fidx(adt, name, tyre):
        a = p.adts[adt]
        fs = a["variants"][0]["f"]
        for i, f in enumerate(fs):
            if f["n"] == name:
                return i
        c = [i for i, f in enumerate(fs) if re.search(tyre, a["T"][f["ty"]]["s"])]
        if len(c) == 1:
            return c[0]
        raise Anchor("field %s of %s" % (name, adt))
    R.t_graph = fidx(R.tree_key, "graph", "StableGraph")
    R.t_root = fidx(R.tree_key, "root", "NodeIndex")
    R.t_n = fidx(R.tree_key, "n_terminals", "^$")
    R.t_disc = fidx(R.tree_key, "num_discontinuous", "^$")
    R.s_start = fidx(R.span_key, "start", "^$")
    R.s_end = fidx(R.span_key, "end", "^$")
    R.s_skips = fidx(R.span_key, "skips", "Option")
    R.nt_label = fidx(R.nt_key, "label", "String$")
    R.nt_feat = fidx(R.nt_key, "features", "Features")
    R.nt_span = fidx(R.nt_key, "span", "Span")
    R.t_form = fidx(R.t_key, "form", "^$")
    R.t_pos = fidx(R.t_key, "pos", "^$")
    R.t_lemma = fidx(R.t_key, "lemma", "Option<.*String")
    R.t_feat = fidx(R.t_key, "features", "Features")
    R.t_span = fidx(R.t_key, "span", "Span")
    nv = {v["n"]: i for i, v in enumerate(p.adts[R.node_key]["variants"])}
    R.v_nt, R.v_t = nv.get("NonTerminal", 0), nv.get("Terminal", 1)
    ev = {v["n"]: i for i, v in enumerate(p.adts[R.edge_key]["variants"])}
    R.v_prim, R.v_sec = ev.get("Primary", 0), ev.get("Secondary", 1)
    p.disc_init = None
    return R


def one(p, kind, rx):
    r = re.compile(rx)
    src = p.adts if kind == "adt" else p.bodies
    c = [k for k, v in src.items() if r.search(v["path"]) and (kind != "adt" or v.get("local"))]
    if len(c) != 1:
        raise Anchor("%s %s (%d candidates)" % (kind, rx, len(c)))
    return c[0]


def body(p, rx):
    r = re.compile(rx)
    c = [k for k, b in p.bodies.items() if r.search(b["path"]) and "{closure" not in k]
    if len(c) != 1:
        raise Anchor("function %s (%d candidates)" % (rx, len(c)))
    return c[0]


def maybe(p, rx):
    r = re.compile(rx)
    c = [k for k, b in p.bodies.items() if r.search(b["path"]) and "{closure" not in k]
    return c[0] if len(c) == 1 else None


def lib_exports(p):
    """externally callable functions of the library (and main of the tool)"""
    out = []
    for k, b in p.bodies.items():
        if "{closure" in k or b.get("derived"):
            continue
        if b["crate"] == "lumberjack" and (b.get("exported") or b.get("reachable")):
            out.append(k)
    return sorted(out)


def short_path(p, k):
    return p.bodies[k]["path"]


def run(p, key, hooks, setup=None, args=None, budget=240):
    e = Engine(p, hooks, budget)
    return e, e.run(key, setup, args)


def is_ok(e, st, v):
    """True / False / None: whether a Result value is Ok"""
    d = e.discr(st, v)
    if d is None:
        return None
    return d == 0


def ret_ty(p, k):
    b = p.bodies[k]
    return b["T"][b["output"]] if b.get("output") is not None else None


def loc(fr, line):
    return "%s:%s in %s" % (fr.body["file"], line, fr.body["path"])
