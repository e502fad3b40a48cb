#!/bin/bash
# dev helper: builds the harness against the working copy /tmp/dev/repo (or, with REAL=1, against /repo)
BF="${BF---features llvm}"
source /opt/vp/env.sh
if [ -n "$REAL" ] || [ ! -d /tmp/dev/repo ]; then cd /verif/harness; D=/verif/target; else cd /tmp/dev/harness; sed 's#/repo/#/tmp/dev/repo/#' /verif/harness/Cargo.toml > Cargo.toml; D=/tmp/dev/target; fi
CARGO_TARGET_DIR=$D timeout 800 cargo build --offline $BF "$@" 2>&1 | grep -E "^error" -A9 | head -100
