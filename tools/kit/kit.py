#!/usr/bin/env python3
"""Builds and runs demo.rs (beside this file) against the snapchain sources in the current directory.
rocksdb and malachite cannot be had offline: kit.tgz carries small stand-ins."""
import os, shutil, subprocess, sys, tarfile, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
sub = "/opt/vp/subset/tree"
with tempfile.TemporaryDirectory(prefix="demo.", dir="/tmp") as w:
    tarfile.open(os.path.join(here, "kit.tgz")).extractall(w, filter="data")
    subprocess.run([sys.executable, w + "/sim/mktree.py", repo, w + "/build"], check=True)
    os.makedirs(w + "/d/src")
    shutil.copy(os.path.join(here, "demo.rs"), w + "/d/src/main.rs")
    shutil.copy(os.path.join(here, "kit.rs"), w + "/d/src/kit.rs")
    shutil.copy(sub + "/Cargo.lock", w + "/d/Cargo.lock")
    open(w + "/d/Cargo.toml", "w").write("""[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
snapchain = { path = "../build/snapchain" }
snapchain-proto = { path = "../build/snapchain/proto" }
informalsystems-malachitebft-core-types = { path = "../sim/malachite/code/crates/core-types" }
rocksdb = { path = "../sim/rocksdb" }
tokio = { version = "1.40.0", features = ["full"] }
hex = "0.4.3"
prost = "0.13.3"
blake3 = "1.4.1"
tempfile = "3.13.0"
ed25519-dalek = "2.1.1"
alloy-primitives = "1"
alloy-signer-local = "2.0"
""")
    os.makedirs(w + "/target/debug")
    for d in ("deps", "build", ".fingerprint"):
        s = sub + "/target/debug/" + d
        if os.path.isdir(s) and subprocess.run(["cp", "-al", s, w + "/target/debug/"], stderr=subprocess.DEVNULL).returncode != 0:
            subprocess.run(["cp", "-a", s, w + "/target/debug/"])
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=w + "/target", RUST_LOG="off", TMPDIR=w, RUSTC_WRAPPER="",
               PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    b = subprocess.run(["cargo", "build", "-q", "--offline"], cwd=w + "/d", env=env)
    if b.returncode != 0:
        sys.exit(2)
    try:
        r = subprocess.run([w + "/target/debug/demo"], cwd=w, env=env, timeout=120)
        sys.exit(1 if r.returncode else 0)
    except subprocess.TimeoutExpired:
        sys.exit(1)
