#!/bin/bash
# Builds a build script (driver.rs beside this script, if any) against the cxx in the current directory and runs test.sh.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d /tmp/cxxdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
export HOME="${HOME:-/root}" PATH="${HOME:-/root}/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2025-04-08 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CXX CXXFLAGS CARGO_TARGET_DIR
mkdir -p "$W/d/src"
if [ -f "$HERE/driver.rs" ]; then cp "$HERE/driver.rs" "$W/d/src/main.rs"; else echo 'fn main() {}' > "$W/d/src/main.rs"; fi
cat > "$W/d/Cargo.toml" <<T
[package]
name = "driver"
version = "0.0.0"
edition = "2021"
[dependencies]
cxx = { path = "$REPO" }
cxx-build = { path = "$REPO/gen/build" }
[patch.crates-io]
cxx = { path = "$REPO" }
cxx-build = { path = "$REPO/gen/build" }
[workspace]
T
cp "$REPO/Cargo.lock" "$W/d/Cargo.lock" 2>/dev/null
(cd "$W/d" && cargo build --offline --target-dir "$W/target") >"$W/log" 2>&1 || { tail -30 "$W/log"; echo "demo: does not build"; exit 2; }
export DRIVER="$W/target/debug/driver" DEPS="$W/target/debug/deps" REPO
mkdir "$W/w"
cp -r "$HERE"/* "$W/w/"
cd "$W/w" || exit 3
# compiles FILE as a library that uses cxx
rust() { rustc --edition 2021 --crate-type lib --emit metadata --out-dir "$W/w/out" -L "dependency=$DEPS" --extern "cxx=$(ls "$DEPS"/libcxx-*.rlib)" "$1"; }
. ./test.sh
rc=$?
echo "demo: exit $rc"
[ $rc -eq 0 ]
