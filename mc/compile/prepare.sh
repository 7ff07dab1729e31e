#!/bin/bash
# Copies the well-known files next to the shim package (they are no part of /repo's working tree).
cd "$(dirname "$0")/../protox-shim" || exit 1
D=protobuf/src/google/protobuf
mkdir -p $D/compiler
for f in any api descriptor duration empty field_mask source_context struct timestamp type wrappers compiler/plugin; do
    cmp -s /usr/include/google/protobuf/$f.proto $D/$f.proto || cp /usr/include/google/protobuf/$f.proto $D/$f.proto || exit 1
done
