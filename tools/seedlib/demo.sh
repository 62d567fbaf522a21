#!/bin/bash
# builds and runs the demonstration next to this script against the crate in the current directory
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/main.rs" "$T/src/main.rs" && cp "$D/h.rs" "$T/src/h.rs"
sed "s#/repo#$PWD#" "$D/Cargo.toml.txt" > "$T/Cargo.toml"
cp Cargo.lock "$T/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$T/Cargo.lock"
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
cd "$T" && cargo build --offline -q 2>"$T/err" || { cat "$T/err"; echo "demo does not build"; exit 3; }
timeout 120 "$T/target/debug/demo"
