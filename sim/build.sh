#!/bin/bash
# usage: build.sh cli|lsp|codec|zed   prints the harness binary
set -eu
S="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${SIM_BUILD:-$S/../build}/target-$1" RUSTUP_TOOLCHAIN="${SIM_TOOLCHAIN:-1.94}" RUSTFLAGS="-Awarnings" CARGO_TERM_COLOR=never
WS="$(python3 "$S/mkws.py" "$1")"
cd "$WS"
cargo build --offline -p harness 1>&2
echo "$CARGO_TARGET_DIR/debug/harness"
