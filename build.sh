#!/bin/bash
# Builds everything the checks use from /repo's working tree. Offline.
export RUSTUP_TOOLCHAIN=nightly-2025-05-06 CARGO_NET_OFFLINE=true PATH=/root/.cargo/bin:$PATH
_here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
_log="$(mktemp)"
if ! cargo build --offline --quiet --manifest-path "$_here/harness/Cargo.toml" >"$_log" 2>&1; then
  cat "$_log" >&2; rm -f "$_log"; echo "build failed" >&2; return 2 2>/dev/null || exit 2
fi
rm -f "$_log"
