#!/bin/bash
# Builds the program beside this script against the cxx in the current directory and runs it.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d /tmp/cxxdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
export HOME="${HOME:-/root}" PATH="${HOME:-/root}/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2025-04-08 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$W/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS CXX CXXFLAGS
mkdir -p "$W/src"
cp "$HERE"/main.rs "$W/src/main.rs"
cp "$HERE"/demo.h "$W/src/demo.h"
[ -f "$HERE/demo.cc" ] && cp "$HERE/demo.cc" "$W/src/demo.cc"
STD=c++17
[ -f "$HERE/std" ] && STD=$(cat "$HERE/std")
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
build = "build.rs"
[dependencies]
cxx = { path = "$REPO" }
[build-dependencies]
cxx-build = { path = "$REPO/gen/build" }
[patch.crates-io]
cxx = { path = "$REPO" }
cxx-build = { path = "$REPO/gen/build" }
[workspace]
T
cat > "$W/build.rs" <<T
fn main() {
    let mut b = cxx_build::bridge("src/main.rs");
    b.include("src").std("$STD");
    if std::path::Path::new("src/demo.cc").exists() { b.file("src/demo.cc"); }
    b.compile("demo");
}
T
cp "$REPO/Cargo.lock" "$W/Cargo.lock" 2>/dev/null
cd "$W" || exit 3
cargo build --offline >"$W/log" 2>&1 || { tail -40 "$W/log"; echo "demo: does not build"; exit 2; }
timeout 60 "$W/target/debug/demo"
rc=$?
echo "demo: exit $rc"
[ $rc -eq 0 ]
