#!/bin/bash
# compiles the runtime library of the tree in the current directory and runs demo.js on it
set -eu
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'find "$w" -type f -delete; rmdir "$w"' EXIT
F="--target=wasm32 -Xclang -fexperimental-max-bitint-width=256 -ffreestanding -fno-builtin -w -O2 -DNDEBUG"
for f in stdlib/*.c; do clang-16 $F -c -I stdlib "$f" -o "$w/$(basename "$f" .c).o"; done
wasm-ld --no-entry --allow-undefined --stack-first --initial-memory=1048576 --export-all "$w"/*.o -o "$w/lib.wasm"
node "$here/demo.js" "$w/lib.wasm"
