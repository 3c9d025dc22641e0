#!/bin/bash
# Builds the filter of /repo against a scripted stand-in for the proxy and runs
# src/main.rs on it; all output goes to a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
cp -r "$here"/Cargo.toml "$here"/Cargo.lock "$here"/src "$here"/pwstub "$here"/shim "$scratch"/ || exit 2
export CARGO_TARGET_DIR="$scratch/target"
cd "$scratch" || exit 2
cargo --config /opt/vp/git-deps/config.toml build --offline >"$scratch/build.log" 2>&1 || { tail -40 "$scratch/build.log"; exit 2; }
timeout 60 "$scratch/target/debug/demo"
