#!/bin/bash
# builds the program beside this script against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"; cp "$here/main.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
eastl-rs = { path = "$repo" }
moveit = "*"
[workspace]
T
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo build -q --offline ${DEMO_PROFILE} >"$tmp/log" 2>&1 || { cat "$tmp/log"; echo "demo does not build"; exit 3; }
bin="$tmp/target/debug/demo"; [ -n "$DEMO_PROFILE" ] && bin="$tmp/target/release/demo"
timeout 100 "$bin"; rc=$?
echo "demo exit $rc"; exit $rc
