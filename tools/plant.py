#!/usr/bin/env python3
"""Build and confirm /verif/seeded/<id>/ from tools/seeds/<id>.py.
Each file defines PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], and DEMO (rust main.rs) or SH (shell body).
usage: plant.py [-n] id...   (-n: do not run the check)"""
import importlib.util, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("LJ_PLANT", "/tmp/ljplant")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")

RS = '''#!/bin/bash
# run with cwd = the repository; builds a small program against the library and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
lumberjack = { path = "$R/lumberjack" }
conllx = "0.11"
petgraph = "0.4"
[workspace]
EOF
cd "$W" && timeout 280 cargo run --offline -q --target-dir "$W/target" 2> "$W/err"
rc=$?
[ $rc -eq 0 ] || tail -5 "$W/err"
exit $rc
'''
SHH = '''#!/bin/bash
# run with cwd = the repository; runs the converter on scratch files
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
cargo build --offline -q --bin lumberjack-conversion --target-dir "$W/target" 2> "$W/err" || { cat "$W/err"; exit 3; }
T="$W/target/debug/lumberjack-conversion"
cd "$W"
'''


def sh(cmd, cwd=None, env=ENV):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def main():
    a = sys.argv[1:]
    nochk = "-n" in a
    a = [x for x in a if x != "-n"]
    if not a:
        a = sorted(f[:-3] for f in os.listdir(os.path.join(H, "tools", "seeds")) if f.endswith(".py"))
    for sid in a:
        sp = importlib.util.spec_from_file_location("s", os.path.join(H, "tools", "seeds", sid + ".py"))
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        d = os.path.join(H, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        repo = os.path.join(W, "repo")
        shutil.rmtree(repo, ignore_errors=True)
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        for path, old, new in m.EDITS:
            f = os.path.join(repo, path)
            s = open(f).read()
            assert s.count(old) >= 1, (sid, path, old)
            open(f, "w").write(s.replace(old, new, 1))
        rc, diff = sh("git diff", repo)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        demo = os.path.join(d, "demo.sh")
        if hasattr(m, "DEMO"):
            open(os.path.join(d, "demo.rs"), "w").write(m.DEMO)
            open(demo, "w").write(RS)
        else:
            open(demo, "w").write(SHH + m.SH)
        os.chmod(demo, 0o755)
        json.dump({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(W, "target"))
        rc, out = sh("cargo test --workspace --offline -- --test-threads 8 2>&1", repo, env)
        tests = "tests ok" if rc == 0 else "TESTS FAIL " + " ".join(l for l in out.splitlines() if "FAILED" in l or l.startswith("error"))[:300]
        rc2, out2 = sh("cargo run -q --offline --bin lumberjack-conversion -- --input_file lumberjack/testdata/test.negra --input_format negra --output_format tueba --projectivize 2>/dev/null | diff -q - lumberjack/testdata/test.ptb", repo, env)
        if rc2:
            tests += " CI-DIFF"
        rp, op = sh("bash " + demo, repo)
        ru, ou = sh("bash " + demo, "/repo")
        res = "demo ok" if (rp != 0 and rp != 3 and ru == 0) else "DEMO BAD patched=%s unpatched=%s\n%s\n---\n%s" % (rp, ru, op[-800:], ou[-800:])
        chk = ""
        if not nochk:
            e = dict(os.environ, LJ_REPO=repo, LJ_TARGET=W + "/facts", LJ_EVIDENCE=W + "/ev")
            rc3, o3 = sh("python3 %s/check.py %s" % (H, m.PROPERTY), None, e)
            hits = sorted(set(l.split("property=")[1].split()[0] for l in o3.splitlines() if l.startswith("VIOLATION ")))
            chk = "caught by %s" % hits if m.PROPERTY in hits else "NOT CAUGHT (%s)" % hits
        print("%-30s %s | %s | %s | %s" % (sid, m.PROPERTY, tests, res, chk), flush=True)
        shutil.rmtree(repo, ignore_errors=True)


main()
