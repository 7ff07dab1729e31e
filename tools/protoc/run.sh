#!/bin/bash
# Development aid, not part of any check: compares protox-parse with protoc's own parser (libprotobuf 3.21,
# compiler::Parser) on the inputs of the parser families. Usage: run.sh [CAP [IDs...]]
# CAP: at most so many cases per family (every n-th). Prints how many sources agree and each kind of difference.
set -e
cd "$(dirname "$0")"
D=/verif/target/protoc
mkdir -p $D
g++ -O2 -c shim.cc -o $D/shim.o
rm -f $D/libpcshim.a
ar rcs $D/libpcshim.a $D/shim.o
CAP=${1:-2000}; shift || true
[ $# -gt 0 ] || set -- C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17
export PC_SHIM=$D CARGO_TARGET_DIR=$D CARGO_INCREMENTAL=0
cargo build -q --offline
ulimit -s unlimited
exec $D/debug/protoc-compare "$CAP" "$@" 2>/dev/null
