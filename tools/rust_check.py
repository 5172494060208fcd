"""Builds the Rust harness together with /repo's lib.rs."""
import hashlib
import os
import shutil
import subprocess


def build(repo, verif, build_dir):
    src = os.path.join(verif, "model", "rust")
    work = os.path.join(build_dir, "rust" if repo == "/repo" else "rust-" + hashlib.sha256(repo.encode()).hexdigest()[:8])
    for root, _, files in os.walk(src):
        for f in files:
            p = os.path.join(root, f)
            q = os.path.join(work, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            text = open(p).read().replace("@REPO@", repo)
            if not os.path.exists(q) or open(q).read() != text:
                open(q, "w").write(text)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, "target"), CARGO_NET_OFFLINE="true",
               RUSTFLAGS="-Awarnings")
    # lib.rs lies outside its package here: have cargo look at it anew.
    stamp = os.path.join(work, "trajoptlib", "Cargo.toml")
    os.utime(stamp)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", "harness"], cwd=work, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        import __main__
        raise __main__.CheckError("cannot build the Rust harness:\n" + r.stdout[-6000:])
    exe = os.path.join(work, "target", "debug", "harness")
    with open(exe, "rb") as f:
        out = os.path.join(build_dir, "rust-harness-" + hashlib.sha256(f.read()).hexdigest()[:16])
    if not os.path.exists(out):
        shutil.copy2(exe, out + ".tmp")
        os.replace(out + ".tmp", out)
    return out
