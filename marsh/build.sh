#!/bin/bash
# Builds the marshalling library of the tree under test and the harness over it into $1.
set -e
OUT=$1; HERE=$(cd "$(dirname "$0")" && pwd); REPO=${REPO:-/repo}
V=/opt/veriftools/verus
mkdir -p "$OUT/src"; cd "$OUT/src"
for f in marshalling.rs marshalling; do ln -sfn "$REPO/Splinter/src/$f" $f; done
ln -sfn "$HERE/lib_root.rs" lib_root.rs; ln -sfn "$HERE/testfmt.rs" testfmt.rs
verus --crate-type=lib --crate-name sub --extern builtin=$V/libverus_builtin.rlib --extern builtin_macros=$V/libverus_builtin_macros.so \
  --extern state_machines_macros=$V/libverus_state_machines_macros.so --no-verify --compile -C overflow-checks=on -o "$OUT/libsub.rlib" lib_root.rs
rustc +1.98.1 --edition 2021 -O -C overflow-checks=on --extern sub="$OUT/libsub.rlib" -L $V -o "$OUT/marsh" "$HERE/main.rs"
