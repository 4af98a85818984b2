#!/bin/bash
# Builds the demonstration beside this file against the client in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cp -r "$here/." "$work/src0"
cd "$work/src0" || exit 2
sed -i "s#@REPO@#$repo#g" Cargo.toml
export CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$work/target}
cargo build --offline >"$work/log" 2>&1 || { grep -A8 '^error' "$work/log" | head -40; echo "demo does not build"; exit 2; }
"$CARGO_TARGET_DIR/debug/demo"
