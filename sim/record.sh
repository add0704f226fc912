#!/bin/bash
# record.sh: takes the library's present source as the recorded tree (after a fix: commit)
cd "$(dirname "$0")" || exit 2
d=$(mktemp -d) || exit 2
rustc --edition 2021 -O build.rs -o "$d/b" && OUT_DIR="$d" CARGO_MANIFEST_DIR="$PWD" "$d/b" >/dev/null && cp "$d/base.lines" base.lines
/bin/rm -rf "$d"
