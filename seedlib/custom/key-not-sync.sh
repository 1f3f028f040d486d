#!/bin/bash
# Exit 0: the crate in the current directory behaves; nonzero: it does not.
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
hash-trie = { path = "$repo" }
futures-executor = "0.3"
[workspace]
END
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
unset CARGO_TARGET_DIR RUSTFLAGS
build() { ( cd "$work" && timeout -k 5 200 cargo build --offline --target-dir "$work/target" >"$work/log" 2>&1 ); }
program() { cat > "$work/src/main.rs" <<END
use hash_trie::HashTrieMap;
use std::collections::hash_map::DefaultHasher;
#[derive(Clone, Debug, Default)]
struct K { id: u32, hits: $1 }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.id == o.id } }
impl Eq for K {}
impl std::hash::Hash for K { fn hash<S: std::hash::Hasher>(&self, s: &mut S) { self.id.hash(s) } }
fn main() {
    let m: HashTrieMap<u64, u32, K, u32, DefaultHasher> = HashTrieMap::new();
    let m = m.insert(K::default(), 1u32, false).unwrap().0;
    std::thread::scope(|s| { for _ in 0..2 { s.spawn(|| m.visit(|k: &K, _: &u32| { let _ = &k.hits; })); } });
}
END
}
program "std::sync::Arc<u32>"; build || { tail -20 "$work/log"; exit 8; }
program "std::cell::Cell<u32>"; if build; then echo "a key that must not be shared between threads is shared between threads"; exit 1; fi
exit 0
