#!/bin/bash
# Builds the model checker, including the crates of /repo with the hooks enabled.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$V/.target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
(cd "$V/mc" && cargo build --offline --locked 2>"$V/.build.log") || {
  grep -E "^error" -A8 "$V/.build.log" | head -60 >&2
  tail -5 "$V/.build.log" >&2
  false
}
