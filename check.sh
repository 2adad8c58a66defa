#!/bin/sh
# check.sh <property id>: rebuilds the simulator against /repo's working tree and searches.
cd "$(dirname "$0")" || exit 2
log=$(mktemp) || exit 2
if ! sh sim/build.sh >"$log" 2>&1; then tail -40 "$log"; rm -f "$log"; echo "the build failed"; exit 2; fi
rm -f "$log"
ECSIM_DIR="$PWD" exec sim/target/release/ecsim check "$1"
