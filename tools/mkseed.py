"""Writes seeded/<id>/ from an edit list; used while planting bugs."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Exits 0 where the property holds on the sampled case, 1 where it is broken.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
[ -d /root/.cargo ] && export CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup RUSTUP_TOOLCHAIN=stable
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/crate" "$w/demo/src"
cp -r /repo/src /repo/Cargo.toml "$w/crate/"
# the git-only hash crates are not available offline: leave out what names them
sed -i -E '/^(sha2|sha3|blake2) *=/d' "$w/crate/Cargo.toml"
sed -i -E 's/^(pub use (sha2|sha3|blake2);)/#[cfg(any())] \1/' "$w/crate/src/lib.rs"
sed -i -E 's/^(pub fn bytecode_to_code_hash)/#[cfg(any())] \1/' "$w/crate/src/utils.rs"
cp "$here/main.rs" "$w/demo/src/main.rs"
cat > "$w/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
zkevm_opcode_defs = { path = "../crate" }
[workspace]
T
[ -f /opt/vp/stage/Cargo.lock ] && grep -v '^$' /dev/null
cd "$w/demo" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2> "$w/log" || { tail -5 "$w/log"; exit 3; }
timeout 60 "$w/target/debug/demo"
'''
DEMO = DEMO.replace("[ -f /opt/vp/stage/Cargo.lock ] && grep -v '^$' /dev/null\n", "")


def seed(sid, prop, edits, main, needs, breaks, demo=None, files=None):
    d = f"{V}/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    tmp = f"/tmp/seed-{sid}"
    subprocess.run(["rm", "-rf", tmp])
    subprocess.run(["git", "clone", "-q", "/repo", tmp], check=True)
    for f, old, new in edits:
        p = f"{tmp}/{f}"
        s = open(p).read()
        if s.count(old) < 1:
            sys.exit(f"{sid}: text not found in {f}: {old}")
        open(p, "w").write(s.replace(old, new, 1))
    diff = subprocess.run(["git", "-C", tmp, "diff"], stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run(["rm", "-rf", tmp])
    open(d + "/main.rs", "w").write(main.strip() + "\n")
    open(d + "/demo.sh", "w").write(demo or DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in (files or {}).items():
        os.makedirs(os.path.dirname(f"{d}/{n}"), exist_ok=True)
        open(f"{d}/{n}", "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
