#!/bin/bash
# mirdump.sh OUT.json TARGETDIR : dump the monomorphic MIR of /repo's current source.
set -e
OUT=$1; TD=$2
HERE=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=nightly
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
export CARGO_TARGET_DIR=$TD/mirx
( cd "$HERE/mirx" && RUSTFLAGS="" cargo build --offline -q 2>"$TD/mirx.log" ) || { cat "$TD/mirx.log" >&2; exit 3; }
cp -f "$TD/mirx/debug/mirx" "$TD/mirx.bin.$$"; WR="$TD/mirx.bin"; mv -f "$TD/mirx.bin.$$" "$WR"
rm -f "$OUT"
cd /repo
export MIRX_CRATE=spl_transpiler MIRX_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=$WR
export CARGO_TARGET_DIR=$TD/mir RUSTFLAGS="-Awarnings -Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=no -Coverflow-checks=yes"
rm -rf "$TD/mir/debug/build/spl_transpiler" "$TD"/mir/debug/.fingerprint/spl_transpiler* 
find "$TD/mir" -maxdepth 3 -name 'spl_transpiler*' -prune -exec rm -rf {} + 2>/dev/null || true
cargo check --lib --offline -q 2>"$TD/mir.log" || { cat "$TD/mir.log" >&2; exit 4; }
[ -s "$OUT" ] || { cat "$TD/mir.log" >&2; echo "no dump" >&2; exit 5; }
