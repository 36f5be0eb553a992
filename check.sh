#!/bin/bash
# check.sh <property> [quick|thorough]   or   check.sh replay <file>
# Rebuilds the checker against /repo's working tree, then explores.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="--cfg sevenz_verif"
export CARGO_TARGET_DIR=$ROOT/target
LOG=$ROOT/target/build.log
mkdir -p "$ROOT/target"
if ! cargo build --release --offline --locked --manifest-path mc/Cargo.toml >"$LOG" 2>&1; then
  echo "BUILD FAILED"; tail -60 "$LOG"; exit 2
fi
[ "$1" = build ] && exit 0
export MC_ROOT=$ROOT
"$ROOT/target/release/mc" "$@"
rc=$?
if [ $rc -ge 128 ] && [ $rc -ne 137 ] && [ $rc -ne 143 ] && [ $rc -ne 130 ]; then
  # the process itself died (abort, segmentation fault, stack overflow) inside the code under test
  mkdir -p replays
  echo "{\"property\":\"$1\",\"what\":\"checker process died with status $rc\"}" >"replays/$1-died.json"
  echo "VIOLATION property=$1 replay=$ROOT/replays/$1-died.json"
  echo "  the checker process died with status $rc while running the code under test"
  rc=1
fi
exit $rc
