#!/bin/bash
# builds main.rs against the tree in the current directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$t/src" && cp "$here/main.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<C
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
hugr-core = { path = "$repo/hugr-core", features = ["zstd", "declarative"] }
hugr-model = { path = "$repo/hugr-model" }
hugr-passes = { path = "$repo/hugr-passes" }
hugr-persistent = { path = "$repo/hugr-persistent" }
serde_json = "1"
itertools = "*"
[profile.dev]
debug = 0
incremental = false
C
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 280 cargo run -q --offline 2>"$t/err"
rc=$?; tail -15 "$t/err"; exit $rc
