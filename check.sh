#!/bin/bash
# bash check.sh PROPERTY: builds the checker against /repo's working tree and runs it.
# VERIF_TIER=quick|thorough
id=${1:?usage: check.sh PROPERTY}
cd "$(dirname "$0")" || exit 2
V=$PWD
tier=${VERIF_TIER:-quick}
case $id in
    C0*|C1*) crate=parse ;;
    *) crate=compile ;;
esac
export CARGO_TARGET_DIR=$V/target/$crate CARGO_INCREMENTAL=0
log=$V/target/$crate-build.log
mkdir -p "$V/target" "$V/evidence" "$V/replays"
rm -f "$V/evidence/$id.json"
[ "$crate" = compile ] && { bash mc/compile/prepare.sh > "$log" 2>&1 || { cat "$log" >&2; exit 2; }; }
if ! cargo build --offline --manifest-path "mc/$crate/Cargo.toml" > "$log" 2>&1; then
    tail -40 "$log" >&2
    echo "the checker does not build against /repo" >&2
    exit 2
fi
ulimit -c 0
exec "$CARGO_TARGET_DIR/debug/mc-$crate" check "$id" "$tier" "$V"
