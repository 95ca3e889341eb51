# Sourced by demo.sh. Builds the real `air` from the working tree in $PWD, with the stand-ins in kit/ for dependencies
# that are not available offline (a small language takes the place of R), inside a scratch directory.
KIT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
T="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$T"' EXIT
fail() { echo "DEMO FAILS: $*" >&2; exit 1; }
build_air() { # build_air cli|lsp -> $AIR
    export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTUP_TOOLCHAIN=1.94 RUSTFLAGS="-Awarnings"
    local ws
    ws="$(SIM_REPO="$PWD" SIM_BUILD="$T" SIM_NO_HARNESS=1 python3 "$KIT/mkws.py" "$1")" || { echo "no workspace" >&2; exit 3; }
    (cd "$ws" && cargo build --offline -q -p air >&2) || { echo "build failed" >&2; exit 3; }
    AIR="$T/target/debug/air"
    [ -x "$AIR" ] || { echo "no binary" >&2; exit 3; }
    mkdir "$T/w"
}
build_zed() { # build_zed MAIN.rs -> $DEMO: a program that drives the Zed extension's code
    export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTUP_TOOLCHAIN=1.94 RUSTFLAGS="-Awarnings"
    local ws
    ws="$(SIM_REPO="$PWD" SIM_BUILD="$T" SIM_NO_HARNESS=1 python3 "$KIT/mkws.py" zed)" || { echo "no workspace" >&2; exit 3; }
    mkdir -p "$ws/demo/src" "$T/w"
    cp "$1" "$ws/demo/src/main.rs"; cp "$KIT/zhost.rs" "$ws/demo/src/zhost.rs"
    printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n[dependencies]\nzed_air = { path = "../crates/zed" }\nzed_extension_api = { path = "../shims/zed_extension_api" }\nserde_json = "1"\n' > "$ws/demo/Cargo.toml"
    sed -i 's/^members = \[/members = ["demo", /' "$ws/Cargo.toml"
    (cd "$ws" && cargo build --offline -q -p demo >&2) || { echo "build failed" >&2; exit 3; }
    DEMO="$T/target/debug/demo"
}
