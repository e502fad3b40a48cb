#!/bin/bash
# builds everything the checks need, from the committed files (offline)
source /opt/vp/env.sh
cd /verif/harness && CARGO_TARGET_DIR=/verif/target timeout 1700 cargo build --offline -q 2>&1 | tail -20
CARGO_TARGET_DIR=/verif/target/llvm timeout 1700 cargo build --offline -q --features llvm 2>&1 | tail -20
test -x /verif/target/llvm/debug/hv && test -x /verif/target/debug/hv
