#!/bin/bash
# the program beside this script must be rejected by the compiler (and control.rs accepted)
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src/bin"; cp "$here/main.rs" "$tmp/src/bin/bad.rs"; cp "$here/control.rs" "$tmp/src/bin/control.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
eastl-rs = { path = "$repo" }
moveit = "*"
[workspace]
T
cd "$tmp"; export CARGO_TARGET_DIR="$tmp/target"
cargo check -q --offline --bin control >"$tmp/log" 2>&1 || { cat "$tmp/log"; echo "control does not build"; exit 3; }
if cargo check -q --offline --bin bad >"$tmp/log" 2>&1; then echo "the unsound program compiles"; exit 1; fi
echo "the unsound program is rejected"; exit 0
