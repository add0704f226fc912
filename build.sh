#!/bin/bash
# usage: build.sh [Cxx]   builds what the check of Cxx (or every check) needs, against /repo's working tree:
#   the simulator; for C12 the simulator on its simulated processor clock; for C14 the other builds of the library
cd "$(dirname "$0")" || exit 2
mkdir -p target/peers
one() { # name, target directory, cargo arguments
  local log="target/build-$1.log"
  if ! cargo build --quiet --offline --target-dir "$2" "${@:3}" >"$log" 2>&1; then
    tail -40 "$log"
    return 1
  fi
}
sim() {
  one sim target --manifest-path sim/Cargo.toml --release
}
peer() { # name, profile directory, cargo arguments
  one "$1" "target/$1" --manifest-path peer/Cargo.toml "${@:3}" && cp "target/$1/$2/sdppeer" "target/peers/$1.new" && mv "target/peers/$1.new" "target/peers/$1"
}
clock() {
  # every basic block of every crate, std included, calls into the simulator's clock
  export RUSTC_BOOTSTRAP=1
  export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
  one clock target/clock --manifest-path sim/Cargo.toml --release --features clock \
    -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu
}
peer32() {
  # a build with 32-bit words, linked with the bare 32-bit C library; where that is missing the fleet does without
  local l d=target/lib32
  rm -f target/peers/release-32bit
  mkdir -p "$d"
  for l in c.so.6 m.so.6 dl.so.2 pthread.so.0 gcc_s.so.1 rt.so.1 util.so.1; do
    ln -sfn "/usr/lib32/lib$l" "$d/lib${l%%.so*}.so" || return 0
  done
  gcc -m32 -c peer/start32.s -o "$d/start.o" 2>target/build-32bit.log || return 0
  RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Clinker=gcc -Clink-arg=-nostartfiles -Clink-arg=-no-pie -Crelocation-model=static -Clink-arg=$PWD/$d/start.o -L$PWD/$d" \
    peer release-32bit i686-unknown-linux-gnu/release --release --features serialize \
    -Zbuild-std=std,panic_unwind --target i686-unknown-linux-gnu >/dev/null 2>&1 || return 0
}
pids=()
case "$1" in
C12) ;;
*) sim & pids+=($!) ;;
esac
case "$1" in
"" | C12) clock & pids+=($!) ;;
esac
case "$1" in
"" | C14)
  peer release-none release --release & pids+=($!)
  peer release-all release --release --features serialize,enhanced_debug & pids+=($!)
  peer debug-none debug & pids+=($!)
  peer32 & pids+=($!)
  ;;
esac
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
exit $rc
