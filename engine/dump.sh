#!/bin/bash
# dump.sh <cache dir>: type-check /repo's crates and write their resolved MIR to <cache>/mir.json
set -e
C=$1
HERE=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTUP_TOOLCHAIN CARGO_TARGET_DIR RUSTFLAGS
export PATH="$HOME/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
SYS=$(rustc +nightly --print sysroot)
D=${MIRDUMP_DRIVER:-$C/driver}
(cd $HERE/driver && CARGO_TARGET_DIR=$D cargo +nightly build --release --offline -q 2>$C/driver.log) || { cat $C/driver.log; exit 3; }
python3 $HERE/ws.py $C/ws
cd $C/ws
rm -f $C/mir.json
touch $HERE/vroots/lib.rs $HERE/simd/lib.rs
export LD_LIBRARY_PATH=$SYS/lib
export RUSTC_WORKSPACE_WRAPPER=$D/release/mirdump
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings ${MIRDUMP_RUSTFLAGS:-}"
export MIRDUMP_OUT=$C/mir.json MIRDUMP_CRATES=${MIRDUMP_CRATES:-starky,fields,algebraic,algebraic_gpu,recursion,groth16,recursion_gnark_ffi,recursion_gnark_cli,eigen_zkit,dsl_compile,ff_ce,ff,serde,vroots}
export MIRDUMP_WS=starky,fields,algebraic,algebraic_gpu,recursion,groth16,recursion_gnark_ffi,recursion_gnark_cli,eigen_zkit,dsl_compile
export MIRDUMP_MONO=1
# cargo goes by modification times, which a restored or copied tree need not advance: re-check the repository's own crates from scratch
for c in ${MIRDUMP_WS//,/ } eigen-zkit recursion-gnark-ffi recursion-gnark-cli algebraic-gpu vroots; do rm -rf $C/target/release/build/$c; done
chk() { CARGO_TARGET_DIR=$C/target cargo +nightly check --release --offline -p vroots > $C/check.log 2>&1; }
if ! chk; then
  # the document types of the groth16 crate may have been renamed: the other checks do not need them
  export RUSTFLAGS="$RUSTFLAGS --cfg no_g16"
  chk || { grep -A12 '^error' $C/check.log; exit 4; }
fi
test -f $C/mir.json
