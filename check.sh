#!/bin/sh
# Builds the simulator against /repo's current working tree and decides one property.
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 3
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export CARGO_NET_OFFLINE=true
log=dst/target/build.$$.log
mkdir -p dst/target
if ! cargo build --release --offline --manifest-path dst/Cargo.toml >"$log" 2>&1; then
    cat "$log"
    rm -f "$log"
    echo "check.sh: the build failed"
    exit 3
fi
rm -f "$log"
exec dst/target/release/dst check "$1" "$PWD"
