#!/bin/bash
# Runs the plugin entry point of /repo on small programs.
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=nightly-2025-05-06 CARGO_NET_OFFLINE=true PATH=/root/.cargo/bin:$PATH
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
cp -r "$here/inst" "$t/inst"
CARGO_TARGET_DIR="$t/target" cargo build --offline --quiet --manifest-path "$t/inst/Cargo.toml" 2>"$t/log" || { cat "$t/log"; exit 3; }
INST="$t/target/debug/inst" node "$here/demo.js"
