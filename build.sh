#!/bin/bash
# Build the harness (and /repo's crates with the simulation hooks on) into /verif/target.
# bash build.sh [crate] : only one of harness, licence, largo (default: all).
set -u
cd "$(dirname "$0")"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=1
export RUSTFLAGS="--cfg logos_sim -Awarnings"
for c in ${1:-harness licence largo}; do
    out=$(cargo build --offline --manifest-path $c/Cargo.toml 2>&1)
    code=$?
    if [ $code -ne 0 ]; then
        echo "$out" | grep -v -E '^ +(Compiling|Fresh|Adding|Locking|Removing)'
        exit $code
    fi
done
