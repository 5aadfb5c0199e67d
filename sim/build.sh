#!/bin/bash
# Builds the simulator against /repo's working tree; prints the path of the binary.
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
export CARGO_TARGET_DIR="${SIMCAT_TARGET_DIR:-$PWD/target}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_INCREMENTAL RUSTC_WORKSPACE_WRAPPER
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.simcat-lock"; flock 9
# cargo goes by mtimes: always look at the library's sources afresh.
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/cddl-cat-*
cargo build --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1 || { tail -50 "$CARGO_TARGET_DIR/build.log" >&2; exit 2; }
echo "$CARGO_TARGET_DIR/debug/simcat"
