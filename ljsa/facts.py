"""Build the fact extractor, run it over /repo's current working tree, load the facts."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LJ_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
TOOL = "+nightly"


class FactError(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", TOOL, "--print", "sysroot"], text=True).strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, "driver", "main.rs")
    exe = os.path.join(BUILD, "ljdriver")
    stamp = os.path.join(BUILD, "ljdriver.stamp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    tmp = exe + ".tmp%d" % os.getpid()
    r = subprocess.run(["rustc", TOOL, "--edition", "2021", "-O", src, "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise FactError("driver build failed:\n" + r.stdout[-4000:])
    os.replace(tmp, exe)
    with open(stamp, "w") as f:
        f.write(h)
    return exe


def extract(repo=REPO, target=None):
    """Run the driver over the workspace; returns the directory with fresh fact files."""
    exe = build_driver()
    target = target or os.path.join(BUILD, "target")
    os.makedirs(target, exist_ok=True)
    facts = os.path.join(target, "facts")
    shutil.rmtree(facts, ignore_errors=True)
    os.makedirs(facts)
    # cargo's freshness cache would skip the wrapper: drop the workspace crates' fingerprints
    for d in (glob.glob(os.path.join(target, "*", ".fingerprint", "lumberjack*"))
              + glob.glob(os.path.join(target, "*", "build", "lumberjack*"))):
        shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ)
    env["RUSTC_WORKSPACE_WRAPPER"] = exe
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib") + ":" + env.get("LD_LIBRARY_PATH", "")
    env["CARGO_TARGET_DIR"] = target
    env["LJ_FACTS_DIR"] = facts
    env["CARGO_INCREMENTAL"] = "0"
    env.pop("RUSTFLAGS", None)
    lock0 = None
    lockfile = os.path.join(repo, "Cargo.lock")
    if os.path.exists(lockfile):
        lock0 = open(lockfile, "rb").read()
    t0 = time.time()
    r = subprocess.run(["cargo", TOOL, "check", "--offline", "--workspace", "--quiet"],
                       cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if lock0 is not None and open(lockfile, "rb").read() != lock0:
        with open(lockfile, "wb") as f:
            f.write(lock0)
    if r.returncode != 0:
        raise FactError("cargo check failed:\n" + r.stdout[-6000:])
    for c in ("lumberjack", "lumberjack_conversion"):
        p = os.path.join(facts, c + ".json")
        if not os.path.exists(p) or os.path.getmtime(p) < t0 - 1:
            raise FactError("no fresh facts for crate %s" % c)
    return facts


def load(repo=REPO):
    os.makedirs(BUILD, exist_ok=True)
    target = os.environ.get("LJ_TARGET") or os.path.join(BUILD, "target")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, "lj.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = extract(repo, target)
        out = {}
        for p in sorted(glob.glob(os.path.join(d, "*.json"))):
            j = json.load(open(p))
            out[j["crate"]] = j
        return out


if __name__ == "__main__":
    t = time.time()
    fs = load()
    for k, v in fs.items():
        print(k, len(v["bodies"]), "bodies", len(v["types"]), "types", len(v["adts"]), "adts")
    print("%.1fs" % (time.time() - t))
