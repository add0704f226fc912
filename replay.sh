#!/bin/bash
# usage: replay.sh FILE    re-executes a recorded violation against /repo's working tree
f=$(realpath "$1") || exit 2
exec "$(dirname "$0")/run.sh" "$(grep -o '"property": *"C[0-9]*"' "$f" | grep -o 'C[0-9]*' | head -1)" replay "$f"
