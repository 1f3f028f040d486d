#!/bin/bash
# Exit 0: the crate in the current directory behaves; nonzero: it does not.
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
hash-trie = { path = "$repo" }
futures-executor = "0.3"
[workspace]
END
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
unset CARGO_TARGET_DIR RUSTFLAGS
build() { ( cd "$work" && timeout -k 5 200 cargo build --offline --target-dir "$work/target" >"$work/log" 2>&1 ); }
program() { cat > "$work/src/main.rs" <<END
use hash_trie::HashTrieMap;
use std::collections::hash_map::DefaultHasher;
fn main() {
    let m: HashTrieMap<u64, u32, u32, String, DefaultHasher> = HashTrieMap::new();
    let m = m.insert(1u32, String::from("stored"), false).unwrap().0;
    let (_, value) = m.find(&1u32).unwrap();
    $1
    println!("{}", value.len());
}
END
}
program ""; build || { tail -20 "$work/log"; exit 8; }
program "drop(m);"; if build; then echo "a reference into the map outlives it"; exit 1; fi
exit 0
