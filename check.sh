#!/bin/bash
# usage: check.sh Cxx    builds the simulator against /repo's working tree and runs one property
exec "$(dirname "$0")/run.sh" "$1" check --property "$@"
