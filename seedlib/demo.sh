#!/bin/bash
# Runs the differential program beside this file against the crate in the current directory.
# Exit 0: everything agreed with the model; nonzero: it did not (or the run hung or crashed).
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
hash-trie = { path = "$repo" }
futures-executor = "0.3"
[features]
h64f32 = []
h64f64 = []
h32f8 = []
h16f16 = []
h8f8 = []
h64f128 = []
h16f32 = []
h128f32 = []
[workspace]
[profile.dev]
opt-level = 0
debug = false
END
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
unset CARGO_TARGET_DIR RUSTFLAGS
cd "$work" || exit 9
timeout -k 5 200 cargo build --offline --features FEATURES --target-dir "$work/target" >"$work/log" 2>&1 || { tail -40 "$work/log"; exit 8; }
ulimit -v 12000000
timeout -k 5 150 "$work/target/debug/demo" SELECT
