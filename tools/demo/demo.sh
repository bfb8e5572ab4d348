#!/bin/bash
# Builds demo.rs against the crates laid out by build.sh (scratch target directory) and runs it.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /opt/vp/ws "$W/ws"
mkdir -p "$W/ws/vdemo/src"
cp "$HERE"/*.rs "$W/ws/vdemo/src/"
mv "$W/ws/vdemo/src/demo.rs" "$W/ws/vdemo/src/main.rs"
cat > "$W/ws/vdemo/Cargo.toml" <<'T'
[package]
name = "vdemo"
version = "0.1.0"
edition = "2021"
[dependencies]
@DEPS@
T
sed -i 's/members = \[/members = ["vdemo", /' "$W/ws/Cargo.toml"
cd "$W/ws"
export CARGO_TARGET_DIR="$W/target" CARGO_INCREMENTAL=0
if ! cargo build --release --offline -p vdemo > "$W/log" 2>&1; then tail -40 "$W/log"; exit 2; fi
timeout 200 "$W/target/release/vdemo"
