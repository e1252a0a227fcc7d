"""Builds the conformance harness against /repo's working tree."""
import hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SKIP = {"target", ".git", "node_modules", "test-ledger"}


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in SKIP)
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, root).encode() + b"\0")
                h.update(hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()


def env():
    e = dict(os.environ)
    out = subprocess.check_output(["bash", "-c", f". {VERIF}/env.sh; env -0"]).split(b"\0")
    e = {k: v for k, v in (x.decode().split("=", 1) for x in out if b"=" in x)}
    return e


def build(limit=850):
    """Returns the harness binary; raises RuntimeError when it does not build.
    Cargo decides by modification times, which say nothing about a tree that was
    copied: what decides here is the content."""
    target = os.path.join(VERIF, "target")
    stamp = os.path.join(target, ".sources")
    exe = os.path.join(target, "release", "slashing-conformance")
    now = tree_hash(os.path.join(REPO, "program"), os.path.join(VERIF, "harness")) + hashlib.sha256(
        open(os.path.join(REPO, "Cargo.toml"), "rb").read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == now:
        return exe
    if os.path.exists(stamp):
        os.remove(stamp)
    fp = os.path.join(target, "release", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("solana-slashing-program-") or d.startswith("slashing-conformance-"):
                subprocess.run(["rm", "-rf", os.path.join(fp, d)])
    p = subprocess.run(["timeout", str(limit), "cargo", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "harness"),
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("the harness does not build:\n" + p.stdout[-4000:])
    open(stamp, "w").write(now)
    return exe


def client(limit=800):
    """The command-line client of /repo, built as the ordinary build does it (so that
    its dependencies are not compiled again), with what it takes to run it here."""
    target = os.path.join(REPO, "target")
    e = env()
    e.update(CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=target)
    # the ordinary build's stamp: what cargo knows by modification times is forgotten
    # when the contents differ from those last built
    s = subprocess.check_output(
        "find Cargo.toml Cargo.lock program clients -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum",
        shell=True, cwd=REPO, env=e, text=True)
    stamp = os.path.join(target, ".vp-sources")
    if not os.path.exists(stamp) or open(stamp).read().strip() != s.strip():
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("solana-slashing-program-") or d.startswith("solana-slashing-cli-"):
                    subprocess.run(["rm", "-rf", os.path.join(fp, d)])
        os.makedirs(target, exist_ok=True)
        open(stamp, "w").write(s)
    # (--examples: there are none, but it makes cargo unify features as for the tests)
    p = subprocess.run(["timeout", str(limit), "cargo", "build", "--workspace", "--features", "solana-slashing-program/test-sbf", "--offline",
                        "--bins", "--examples"], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("the command-line client does not build:\n" + p.stdout[-4000:])
    return os.path.join(target, "debug", "spl-slashing")


def stage(work):
    """Unpacks the ledgers and compiles the stand-in for the limit on open files:
    (fixtures, preload)."""
    fx = os.path.join(work, "fixtures")
    os.makedirs(fx)
    subprocess.run(["tar", "-C", fx, "-xJf", os.path.join(VERIF, "fixtures", "ledgers.tar.xz")], check=True)
    so = os.path.join(work, "nofile.so")
    p = subprocess.run(["gcc", "-D_GNU_SOURCE", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(VERIF, "harness", "nofile.c")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("nofile.c does not compile:\n" + p.stdout)
    return fx, so


if __name__ == "__main__":
    print(build())
    print(client())
