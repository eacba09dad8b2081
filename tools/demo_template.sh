#!/bin/bash
# cwd: the repository. Builds demo.rs (beside this file) against the crates of the working tree, in a scratch
# folder, and runs it: exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
export HOME=/root CARGO_HOME=/root/.cargo CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$d/src"; sed "s#@REPO@#$repo#" "$here/demo.rs" > "$d/src/main.rs"; cp "$repo/rust/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
$(sed -n 's|^//dep \([a-z-]*\) \(.*\)|\1 = { path = "REPO/\2" }|p' "$here/demo.rs" | sed "s|REPO|$repo|")
serde_json = "1.0"
[profile.dev]
debug = false
incremental = false
T
cd "$d" && cargo build --offline -q 2>"$d/log" || { tail -20 "$d/log"; echo "demo does not build"; exit 3; }
timeout 120 "$d/target/debug/demo"
