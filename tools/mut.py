#!/usr/bin/env python3
"""Try source edits against the checks, in scratch copies.
usage: mut.py [-k substr] [-t] [file.py ...]   each file defines EDITS = [(name, expected, [(path, old, new), ...])]
expected: a property id (must be reported), or None (every check must stay quiet)."""
import glob, importlib.util, os, shutil, subprocess, sys, threading, queue
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("LJ_MUT", "/tmp/ljmut")
import fcntl
LOCK = open(W + ".lock", "w")
fcntl.flock(LOCK, fcntl.LOCK_EX)


def worker(n, q, res, checks):
    repo, tgt, ev = "%s/repo%d" % (W, n), "%s/target%d" % (W, n), "%s/ev%d" % (W, n)
    os.makedirs(ev, exist_ok=True)
    shutil.rmtree(repo, ignore_errors=True)
    os.makedirs(repo)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + repo, shell=True)
    if not os.path.exists(tgt):
        subprocess.call(["cp", "-a", os.path.join(H, "build", "target"), tgt])
    while True:
        try:
            e = q.get_nowait()
        except queue.Empty:
            return
        name, exp, eds = e[:3]
        saved = {}
        bad = None
        for path, old, new in eds:
            f = os.path.join(repo, path)
            s = open(f).read()
            saved.setdefault(f, s)
            if s.count(old) < 1:
                bad = "pattern not found in %s: %r" % (path, old[:60])
                break
            open(f, "w").write(s.replace(old, new, 1))
        if bad:
            res[name] = (exp, "STALE", bad)
        else:
            env = dict(os.environ, LJ_REPO=repo, LJ_TARGET=tgt, LJ_EVIDENCE=ev)
            ids = [os.environ["LJ_ONLY"]] if os.environ.get("LJ_ONLY") else ["all"] if (exp is None or checks == "all") else ([exp] if isinstance(exp, str) else list(exp))
            r = subprocess.run([sys.executable, os.path.join(H, "check.py")] + ids, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hits = sorted(set(l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION ")))
            errs = [l for l in r.stdout.splitlines() if l.startswith("ERROR ") or "error[" in l or "FactError" in l]
            if exp is None:
                st = "ok" if not hits and not errs else "FALSE ALARM"
            else:
                want = {exp} if isinstance(exp, str) else set(exp)
                st = "ok" if hits and want & set(hits) else "MISSED"
            det = " ".join(hits) + (" ERR " + " | ".join(errs[:3]) if errs else "")
            if st == "FALSE ALARM" or os.environ.get("V"):
                det += "\n" + "\n".join("        " + l[:330] for l in r.stdout.splitlines() if l.startswith("  ") or "Error" in l or "Budget" in l)[:3500]
            res[name] = (exp, st, det)
        for f, s in saved.items():
            open(f, "w").write(s)
        print("%-12s %-40s exp=%s  %s" % (res[name][1], name, exp, res[name][2]), flush=True)


def main():
    a = sys.argv[1:]
    k = None
    checks = None
    if "-k" in a:
        i = a.index("-k")
        k = a[i + 1]
        del a[i:i + 2]
    if "-a" in a:
        a.remove("-a")
        checks = "all"
    files = a or sorted(glob.glob(os.path.join(H, "tools", "edits_*.py")))
    q = queue.Queue()
    for f in files:
        sp = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for e in m.EDITS:
            if k is None or k in e[0] or k == e[1]:
                q.put(e)
    res = {}
    os.makedirs(W, exist_ok=True)
    n = min(5, q.qsize())
    ts = [threading.Thread(target=worker, args=(i, q, res, checks)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print("total", len(res), "ok", sum(1 for x in res.values() if x[1] == "ok"))
    for n_, x in sorted(res.items()):
        if x[1] != "ok":
            print("  ", x[1], n_, "exp", x[0])


main()
