"""Builds what the checks need from /repo's current working tree, in /verif/.build."""
import fcntl, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("CARGO_BUILD_TARGET_DIR", "RUSTFLAGS", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    return e


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "mkdocs"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.islink(p):
                continue
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


WORKSPACE = ["parser", "circom", "compiler", "type_analysis", "circom_algebra", "constraint_list",
             "program_structure", "constraint_generation", "constraint_writers", "constant_tracking",
             "code_producers", "dag"]


def circom():
    """Path of the circom binary built from the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        th = tree_hash()
        stamp = os.path.join(BUILD, "stamp")
        binp = os.path.join(BUILD, "target", "release", "circom")
        old = open(stamp).read().strip() if os.path.exists(stamp) else ""
        if old == th and os.path.exists(binp):
            return binp
        env = _env()
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        if os.path.exists(os.path.join(BUILD, "target")):
            # never trust file times: force the workspace crates to be rebuilt
            cmd = ["cargo", "clean", "--release", "--offline"]
            for w in WORKSPACE:
                cmd += ["-p", w]
            subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "-p", "circom"],
                           cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
            raise BuildError("cargo build failed")
        with open(stamp, "w") as f:
            f.write(th)
        return binp


def harness(name):
    """Build the Rust harness crate /verif/harness/<name> (path dependencies on /repo)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-h"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        th = tree_hash()
        src = os.path.join(VERIF, "harness", name)
        h = hashlib.sha256()
        for root, _, files in os.walk(src):
            for f in sorted(files):
                if f != "Cargo.lock":
                    h.update(open(os.path.join(root, f), "rb").read())
        th += h.hexdigest()
        tdir = os.path.join(BUILD, "htarget")
        stamp = os.path.join(BUILD, "hstamp-" + name)
        binp = os.path.join(tdir, "release", name)
        old = open(stamp).read().strip() if os.path.exists(stamp) else ""
        if old == th and os.path.exists(binp):
            return binp
        env = _env()
        env["CARGO_TARGET_DIR"] = tdir
        if os.path.exists(tdir):
            cmd = ["cargo", "clean", "--release", "--offline"]
            for w in WORKSPACE + [name]:
                cmd += ["-p", w]
            subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--release", "--offline"],
                           cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
            raise BuildError("cargo build of harness failed")
        with open(stamp, "w") as f:
            f.write(th)
        return binp
