#!/bin/bash
# Exit 0: the crate in the current directory behaves; nonzero: it does not.
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
hash-trie = { path = "$repo" }
futures-executor = "0.3"
[workspace]
END
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
unset CARGO_TARGET_DIR RUSTFLAGS
build() { ( cd "$work" && timeout -k 5 200 cargo build --offline --target-dir "$work/target" >"$work/log" 2>&1 ); }
cat > "$work/src/main.rs" <<'END'
use hash_trie::{HashTrieMap, results::*, transformations::*, ParallelismStrategy};
use futures_executor::block_on;
use std::collections::hash_map::DefaultHasher;
type M = HashTrieMap<u64, u32, u32, u32, DefaultHasher>;
fn main() {
    let build = || { let mut m = M::new(); for i in 0..50u32 { m = m.insert(i, i, false).unwrap().0; } m };
    let run = |m: &M| block_on(m.transform(|a: &Vec<u32>, b: &Vec<u32>| { let mut c = a.clone(); c.extend(b); c }, new_map_transform_generic(|k: &u32, _: &u32| MapTransformResult::Unchanged(vec![*k])), ParallelismStrategy::default())).1;
    let m = build();
    let first = run(&m);
    let keep: Vec<M> = (0..200).map(|_| build()).collect();
    for n in &keep { if run(n) != first { println!("the same operation on the same entries gave another answer"); std::process::exit(1); } }
    for _ in 0..200 { if run(&m) != first { println!("the same operation on the same collection gave another answer"); std::process::exit(1); } }
}
END
build || { tail -20 "$work/log"; exit 8; }
timeout 60 "$work/target/debug/demo"
