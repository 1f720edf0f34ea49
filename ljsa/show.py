"""Human-readable dump of the extracted MIR facts (debugging aid)."""
import json, sys, os
def place(b, p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e == "*": s = "(*%s)" % s
        elif e[0] == "f": s = "%s.%s" % (s, e[4] or e[1])
        elif e[0] == "i": s = "%s[_%d]" % (s, e[1])
        elif e[0] == "d": s = "(%s as %s)" % (s, e[2])
        else: s = "%s.%s" % (s, e)
    return s
def op(b, o, T):
    if o[0] in ("cp", "mv"): return ("" if o[0]=="cp" else "move ") + place(b, o[1])
    if o[0] == "c": return "const %s" % (json.dumps(o[1]),)
    if o[0] == "fn": return "fn " + o[1].get("rpath", o[1]["path"]) + ("" if "r" in o[1] else "?")
    return str(o)
def show(j, k):
    b = j["bodies"][k]; T = j["types"]
    print("fn", k, b["path"], "argc", b["argc"])
    for n, p in b["names"]: print("   debug", n, place(b, p))
    for i, t in enumerate(b["locals"]): print("   _%d: %s" % (i, T[t]["s"]))
    for i, bl in enumerate(b["blocks"]):
        if bl["c"]: continue
        print(" bb%d:" % i)
        for s in bl["s"]:
            if s[0] == "=":
                r = s[2]
                if r[0] in("use",): rs = op(b, r[1], T)
                elif r[0] in ("ref",): rs = "&%s%s" % ("mut " if r[1] else "", place(b, r[2]))
                elif r[0] in ("bin",): rs = "%s(%s, %s)" % (r[1], op(b, r[2], T), op(b, r[3], T))
                elif r[0] in ("un",): rs = "%s(%s)" % (r[1], op(b, r[2], T))
                elif r[0] == "discr": rs = "discr(%s)" % place(b, r[1])
                elif r[0] == "agg": rs = "%s{%s}" % (r[1], ", ".join(op(b, x, T) for x in r[2]))
                elif r[0] == "cast": rs = "%s as %s" % (op(b, r[2], T), r[1])
                else: rs = str(r)
                print("     %s = %s   // %d" % (place(b, s[1]), rs, s[3]))
            else: print("    ", s)
        t = bl["t"]
        if t[0] == "call": print("     %s = %s(%s) -> %s   // %d" % (place(b, t[3]), op(b, t[1], T), ", ".join(op(b, x, T) for x in t[2]), t[4], bl["l"]))
        elif t[0] == "switch": print("     switch %s %s else %s" % (op(b, t[1], T), t[2], t[3]))
        elif t[0] == "assert": print("     assert %s == %s (%s) -> %s" % (op(b, t[1], T), t[2], t[3], t[4]))
        elif t[0] == "drop": print("     drop %s -> %s" % (place(b, t[1]), t[2]))
        else: print("    ", t)
if __name__ == "__main__":
    d = os.environ.get("LJ_FACTS", "/verif/build/target/facts")
    for c in ("lumberjack", "lumberjack_conversion"):
        j = json.load(open("%s/%s.json" % (d, c)))
        for k in j["bodies"]:
            if sys.argv[1] in k and "::rules::" not in k: show(j, k)
