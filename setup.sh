#!/bin/bash
# Builds the model checker.
cd "$(dirname "$0")" || exit 1
. ./build.sh || exit 1
.target/debug/mc list
