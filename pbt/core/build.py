"""Builds the hush binary from the current working tree of /repo, in a target directory of
our own (never in /repo/target), keyed on the content of the sources."""
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("HUSH_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TARGET = os.environ.get("HUSH_TARGET", os.path.join(VERIF, ".build", "target"))


def _env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "FOO_HSH", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env.setdefault("HOME", "/root")
    env["PATH"] = env.get("PATH", "/usr/bin:/bin") + ":/root/.cargo/bin"
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "1"
    env["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    env["CARGO_TARGET_DIR"] = TARGET
    return env


def source_hash():
    """Content hash of everything the build reads."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, n) for n in ("Cargo.toml", "Cargo.lock", "build.rs", "src")]
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = sorted(
                os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs
            )
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


class BuildError(Exception):
    pass


def build(log=sys.stderr):
    """Returns the path of an up-to-date debug binary (debug assertions and overflow checks on)."""
    import fcntl
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".pbt-lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp = os.path.join(TARGET, ".pbt-source-hash")
    binary = os.path.join(TARGET, "debug", "hush")
    want = source_hash()
    have = None
    if os.path.exists(stamp) and os.path.exists(binary):
        have = open(stamp).read().strip()
    if have != want:
        # Files added to src/runtime/lib are not tracked by cargo: forget the crate.
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("hush-"):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
        p = subprocess.run(
            ["cargo", "build", "--offline", "--quiet", "--bin", "hush"],
            cwd=REPO, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        )
        if p.returncode != 0 or not os.path.exists(binary):
            out = p.stdout.decode(errors="replace")
            raise BuildError("cargo build failed:\n" + out[-4000:])
        if source_hash() != want:
            raise BuildError("sources changed during the build")
        with open(stamp, "w") as f:
            f.write(want)
    lock.close()
    return binary


if __name__ == "__main__":
    print(build())
