#!/bin/sh
# Builds the simulator against /repo's working tree.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=0 RUSTC_BOOTSTRAP=ecsim RUSTC_WRAPPER="$PWD/wrap.sh" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cargo clean --offline --release -p ellipticcurve >/dev/null 2>&1
exec cargo build --offline --release "$@"
