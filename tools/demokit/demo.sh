#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d /tmp/cfgn-demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here"/Cargo.toml "$here"/Cargo.lock "$here"/*.rs "$t"/ || exit 3
cd "$t" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUST_BACKTRACE=0
timeout 250 cargo +stable build --offline --quiet || exit 3
timeout 40 "$t/target/debug/demo"
