#!/bin/bash
# Builds everything once (checks rebuild incrementally from /repo's tree anyway).
V="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$V/target"
(cd "$V/harness" && cargo +stable build --offline --bin cfgn-harness) || exit 1
timeout 1200 python3 "$V/p12/run.py" --build-only
exit 0
