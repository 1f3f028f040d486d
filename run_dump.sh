#!/bin/bash
# usage: run_dump.sh REPO OUT.json   -- builds the driver if needed, then dumps REPO's crate
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$1"; out="$2"
bin="$here/build/htdump"
mkdir -p "$here/build"
if [ ! -x "$bin" ] || [ "$here/driver/main.rs" -nt "$bin" ]; then
  tmpb="$here/build/htdump.$$"
  rustc +nightly -O --cap-lints allow "$here/driver/main.rs" -o "$tmpb" || exit 3
  mv "$tmpb" "$bin"
fi
export LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib"
export HT_OUT="$out" HT_CRATE=hash_trie
export RUSTC_WORKSPACE_WRAPPER="$bin"
td="$(mktemp -d /tmp/htdump.XXXXXX)"
trap '/bin/rm -rf "$td"' EXIT
cargo +nightly check --offline --lib --manifest-path "$repo/Cargo.toml" --target-dir "$td/t" >"$td/log" 2>&1
rc=$?
if [ $rc -ne 0 ] || [ ! -s "$out" ]; then tail -60 "$td/log" >&2; exit 3; fi
