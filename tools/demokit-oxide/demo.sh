#!/bin/bash
# Runs main.rs against /repo's istanbul-oxide.
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=nightly-2025-05-06 CARGO_NET_OFFLINE=true PATH=/root/.cargo/bin:$PATH
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
cp -r "$here/ox" "$t/ox"
CARGO_TARGET_DIR="$t/target" cargo build --offline --quiet --manifest-path "$t/ox/Cargo.toml" 2>"$t/log" || { cat "$t/log"; exit 3; }
"$t/target/debug/ox"
