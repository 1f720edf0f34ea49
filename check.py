#!/usr/bin/env python3
"""python3 /verif/check.py <property id>|all|setup"""
import os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "ljsa"))
sys.setrecursionlimit(20000)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    import facts
    if sys.argv[1] == "setup":
        facts.build_driver()
        facts.load()
        print("setup done")
        return 0
    import rt, checks
    ids = sorted(rt.CHECKS) if sys.argv[1] == "all" else sys.argv[1:]
    rc = 0
    prog = None
    for i in ids:
        try:
            if prog is None:
                prog = rt.Program(facts.load(os.environ.get("LJ_REPO", "/repo")))
            r = rt.run_check(i, prog)
        except Exception:
            traceback.print_exc(limit=-14)
            print("ERROR property=%s no answer" % i)
            r = 2
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main())
