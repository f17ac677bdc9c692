#!/bin/bash
# check.sh <ID> <quick|thorough>: builds the checker against /repo's working tree, and runs one check.
cd "$(dirname "$0")" || exit 2
. ./build.sh || exit 2
exec .target/debug/mc check "$1" --tier "${2:-quick}"
