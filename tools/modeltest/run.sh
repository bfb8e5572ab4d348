#!/bin/bash
# compares the interpreter's models of library functions with the functions themselves
set -e
H=$(cd "$(dirname "$0")" && pwd); W=${1:-/tmp/modeltest}; mkdir -p $W/src
cp $H/lib.rs $H/main.rs $W/src/
cat > $W/Cargo.toml <<T
[package]
name = "vroots"
version = "0.1.0"
edition = "2021"
[dependencies]
itertools = "0.10"
rayon = "1"
[workspace]
T
cd $W; export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR=$W/t cargo +nightly run -q --offline > $W/real.txt 2>$W/err.txt || { cat $W/err.txt; exit 1; }
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib RUSTC_WORKSPACE_WRAPPER=$H/../../.cache/work-mir/driver/release/mirdump
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings" MIRDUMP_OUT=$W/mir.json MIRDUMP_CRATES=vroots MIRDUMP_WS=vroots MIRDUMP_MONO=1
rm -rf $W/t2/release/build/vroots; CARGO_TARGET_DIR=$W/t2 cargo +nightly check --release -q --offline --lib
python3 $H/cmp.py $W
