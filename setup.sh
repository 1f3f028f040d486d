#!/bin/bash
# builds the MIR driver
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/build" "$here/evidence"
rustc +nightly -O --cap-lints allow "$here/driver/main.rs" -o "$here/build/htdump"
