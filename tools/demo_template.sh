#!/bin/bash
# Builds main.rs (beside this file) against the crates in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; sed "s#@REPO@#$R#g" "$D/Cargo.toml.in" > "$T/Cargo.toml"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$T/Cargo.lock"
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo run --offline --quiet
