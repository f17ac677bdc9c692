#!/bin/bash
# try_demo.sh ID: builds and runs the demonstration of a planted bug on /repo as it is, with a shared build folder.
cd "$(dirname "$0")/.." || exit 2
. /opt/vp/env.sh
W=/tmp/demodev; mkdir -p $W; cp "seeded/$1"/{main.rs,Cargo.toml,Cargo.lock} $W/
cd $W && CARGO_TARGET_DIR=$W/target cargo build --offline 2>&1 | grep -E "^error|^  *-->|^warning: unused" -A6 | head -60
timeout 120 $W/target/debug/demo; echo "exit $?"
