#!/bin/bash
# Exit 0: the crate in the current directory behaves; nonzero: it does not.
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
hash-trie = { path = "$repo" }
futures-executor = "0.3"
[workspace]
END
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
unset CARGO_TARGET_DIR RUSTFLAGS
build() { ( cd "$work" && timeout -k 5 200 cargo build --offline --target-dir "$work/target" >"$work/log" 2>&1 ); }
program() { cat > "$work/src/main.rs" <<END
use hash_trie::{HashTrieMap, results::*, transformations::*};
use std::collections::hash_map::DefaultHasher;
fn main() {
    let m: HashTrieMap<u64, u32, u32, u32, DefaultHasher> = HashTrieMap::new();
    let m = m.insert(3u32, 1u32, false).unwrap().0;
    let (n, _): (HashTrieMap<u64, u32, u32, u32, DefaultHasher>, ()) = $1 { m.transmute(|_: &(), _: &()| (), new_map_transmute_generic(|k: &u32, v: &u32| MapTransmuteResult::Transmuted(k + 1, *v, ()))) };
    println!("{:?}", n.find(&4u32).is_ok());
}
END
}
program "unsafe"; build || { tail -20 "$work/log"; exit 8; }
program ""; if build; then echo "safe code can change the keys"; "$work/target/debug/demo"; exit 1; fi
exit 0
