#!/bin/bash
# extbuild.sh DIR TARGETDIR : build the extension module of /repo's current source into DIR.
set -e
[ -d "$1" ] && [ -n "$2" ]
. /opt/vp/env.sh
cd /repo
export RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=$2/ext
cargo build --lib --offline -q
cp -f "$2/ext/debug/libspl_transpiler.so" "$1/spl_transpiler.cpython-312-x86_64-linux-gnu.so"
