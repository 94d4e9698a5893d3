#!/bin/bash
# usage: check.sh <PROPERTY> | check.sh replay <file> | check.sh build
# Builds the simulator against /repo's working tree and runs one property's campaign
# (VERIF_TIER=quick|thorough, VERIF_SEED=n).
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true
build() {
  local log
  log=$(cargo build --release --offline --manifest-path sim/Cargo.toml 2>&1)
  if [ $? -ne 0 ]; then
    echo "$log" | tail -40
    echo "BUILD FAILED: the simulator does not build against /repo"
    exit 2
  fi
}
build
case "$1" in
  build) exit 0 ;;
  replay) exec sim/target/release/dersim replay "$2" ;;
  *) exec sim/target/release/dersim check "$@" ;;
esac
