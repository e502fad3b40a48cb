#!/bin/bash
# check.sh <property> <quick|thorough>: rebuild the harness against /repo's working tree and run one check.
source /opt/vp/env.sh
cd /verif/harness || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
export CARGO_TARGET_DIR=/verif/target VERIF_TIER=$TIER
FEAT=; case $ID in C23|C24) FEAT="--features llvm"; export CARGO_TARGET_DIR=/verif/target/llvm;; esac
LOG=$(mktemp)
if ! timeout 800 cargo build --offline -q $FEAT >"$LOG" 2>&1; then echo "build of the harness failed:"; tail -40 "$LOG"; rm -f "$LOG"; exit 2; fi
rm -f "$LOG"
cd /verif && exec $CARGO_TARGET_DIR/debug/hv check "$ID" "$TIER"
