#!/bin/bash
# Builds demo.rs against the whole starky crate (profiling attribute replaced by one that returns the item unchanged) and runs it.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/ws/vdemo/src" "$W/ws/profiler_macro/src"
cp -a /opt/vp/ws/fields /opt/vp/ws/algebraic-gpu /opt/vp/ws/Cargo.lock "$W/ws/"
cp -rL /repo/starky "$W/ws/starky"
sed 's|^# left out: profiler_macro.*|profiler_macro = { path = "../profiler_macro" }|' /opt/vp/ws/starky/Cargo.toml > "$W/ws/starky/Cargo.toml"
printf '[package]\nname = "profiler_macro"\nversion = "0.1.0"\nedition = "2021"\n[lib]\nproc-macro = true\n' > "$W/ws/profiler_macro/Cargo.toml"
printf 'use proc_macro::TokenStream;\n#[proc_macro_attribute]\npub fn time_profiler(_a: TokenStream, item: TokenStream) -> TokenStream { item }\n' > "$W/ws/profiler_macro/src/lib.rs"
cp "$HERE"/*.rs "$W/ws/vdemo/src/"
mv "$W/ws/vdemo/src/demo.rs" "$W/ws/vdemo/src/main.rs"
cat > "$W/ws/vdemo/Cargo.toml" <<'T'
[package]
name = "vdemo"
version = "0.1.0"
edition = "2021"
[dependencies]
@DEPS@
T
printf '[workspace]\nmembers = ["vdemo", "starky", "fields", "profiler_macro"]\nresolver = "2"\n' > "$W/ws/Cargo.toml"
cd "$W/ws"
export CARGO_TARGET_DIR="$W/target" CARGO_INCREMENTAL=0
if ! cargo build --release --offline -p vdemo > "$W/log" 2>&1; then tail -40 "$W/log"; exit 2; fi
timeout 200 "$W/target/release/vdemo"
