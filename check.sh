#!/bin/bash
# check.sh ID: build the monitors against /repo's working tree, and decide a property.
# VERIF_SEED and VERIF_TIER (quick or thorough) say how.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
log=$(mktemp)
if ! (cd harness && cargo build --offline --locked --bin vmon) >"$log" 2>&1; then
    cat "$log"
    rm -f "$log"
    echo "the monitors do not build against /repo"
    exit 2
fi
rm -f "$log"
exec harness/target/debug/vmon check "$1"
