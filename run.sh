#!/bin/bash
# usage: run.sh Cxx ARGS...   builds and runs the simulator for property Cxx
cd "$(dirname "$0")" || exit 2
export SDPSIM_HOME="$PWD" SDPSIM_PEERS="$PWD/target/peers"
if ! ./build.sh "$1" >&2; then
  echo "build failed" >&2
  exit 2
fi
case "$1" in
C12) exec target/clock/x86_64-unknown-linux-gnu/release/sdpsim "${@:2}" ;;
*) exec target/release/sdpsim "${@:2}" ;;
esac
