#!/bin/bash
# Exit 0: the crate in the current directory behaves; nonzero: it does not.
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
hash-trie = { path = "$repo" }
futures-executor = "0.3"
[workspace]
END
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
unset CARGO_TARGET_DIR RUSTFLAGS
build() { ( cd "$work" && timeout -k 5 200 cargo build --offline --target-dir "$work/target" >"$work/log" 2>&1 ); }
program() { cat > "$work/src/main.rs" <<END
use hash_trie::HashTrieMap;
use std::collections::hash_map::DefaultHasher;
use std::sync::{Mutex, MutexGuard};
static LOCK: Mutex<u32> = Mutex::new(0);
#[derive(Clone, Debug)]
struct V(std::marker::PhantomData<$1>);
fn main() {
    let m: HashTrieMap<u64, u32, u32, V, DefaultHasher> = HashTrieMap::new();
    let m = m.insert(1u32, V(std::marker::PhantomData), false).unwrap().0;
    std::thread::spawn(move || m.size()).join().unwrap();
    let _: Option<MutexGuard<u32>> = LOCK.lock().ok();
}
END
}
program "u32"; build || { tail -20 "$work/log"; exit 8; }
program "MutexGuard<'static, u32>"; if build; then echo "a value that must stay on its thread moves to another"; exit 1; fi
exit 0
