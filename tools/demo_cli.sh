#!/bin/bash
# Builds the cxxbridge command of the crate in the current directory and runs test.sh beside this script.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/cxxdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
export HOME="${HOME:-/root}" PATH="${HOME:-/root}/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2025-04-08 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CXX CXXFLAGS
cargo build --offline -p cxxbridge-cmd --target-dir "$W/target" >"$W/log" 2>&1 || { tail -30 "$W/log"; echo "demo: does not build"; exit 2; }
mkdir "$W/w"
cp "$HERE"/* "$W/w/"
cd "$W/w" && CXXBRIDGE="$W/target/debug/cxxbridge" bash ./test.sh
rc=$?
echo "demo: exit $rc"
[ $rc -eq 0 ]
