#!/bin/bash
# run in /repo: compiles demo.rs against src/yul2ir/utils.rs and runs it
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -r "$w"' EXIT
sed "s|@UTILS@|$PWD/src/yul2ir/utils.rs|" "$here/demo.rs" > "$w/main.rs"
rustc --edition 2021 -O -C overflow-checks=on -A warnings -o "$w/demo" "$w/main.rs" || exit 2
timeout 60 "$w/demo"
