#!/bin/bash
# Builds the simulator, with the real decy code in it, from /repo's current working tree.
set -u
cd "$(dirname "$0")/sim"
export CARGO_TARGET_DIR="$(cd .. && pwd)/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
log=$(mktemp)
if cargo build --offline >"$log" 2>&1; then rm -f "$log"; exit 0; fi
cat "$log" >&2; rm -f "$log"; exit 1
