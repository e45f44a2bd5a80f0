#!/bin/bash
# usage: run.sh PROP [harness args...]
# Builds the harness against /repo's current working tree and runs one check.
# exit 0 = held, 1 = VIOLATION line printed, anything else = no answer.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$V" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$V/target"
prop="$1"; shift
mkdir -p "$V/out" "$V/evidence"
if [ "$prop" = P12 ]; then exec bash "$V/p12/run.sh" "$@"; fi
log="$V/out/build-$prop.log"
if ! (cd "$V/harness" && cargo +stable build --offline --bin cfgn-harness) >"$log" 2>&1; then
  tail -40 "$log"; echo "ERROR: harness does not build against /repo"; exit 2
fi
exec "$V/target/debug/cfgn-harness" "$prop" "$@"
