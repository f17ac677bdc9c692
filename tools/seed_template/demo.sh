#!/bin/bash
# Builds and runs main.rs against /repo: exits 0 if the property holds.
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$W"' EXIT
cp "$D/main.rs" "$D/Cargo.toml" "$D/Cargo.lock" "$W/"
unset RUSTFLAGS
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target"
cd "$W" && cargo build --offline >"$W/build.log" 2>&1 || { tail -30 "$W/build.log"; exit 3; }
timeout 120 "$W/target/debug/demo"
