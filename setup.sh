#!/bin/bash
# Checks that the machinery builds offline (each check builds again for itself).
cd "$(dirname "$0")" || exit 1
mkdir -p target evidence replays
for crate in parse compile; do
    [ -e mc/$crate/Cargo.toml ] || continue
    [ $crate = compile ] && { bash mc/compile/prepare.sh || exit 1; }
    CARGO_TARGET_DIR=$PWD/target/$crate CARGO_INCREMENTAL=0 cargo build --offline --manifest-path mc/$crate/Cargo.toml || exit 1
done
