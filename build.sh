#!/bin/bash
# Builds the simulator from /repo's working tree into /verif/target (nothing is written elsewhere).
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="${SIM_TARGET:-$here/target}" RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" || exit 2
exec 9>"$CARGO_TARGET_DIR/.build-lock" && flock 9
# Cargo compares times only; the library and the harness are always compiled anew.
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/{imgproc-rs,imgpar,imgplain,opcat,simrt,model,driver}-*
log="$CARGO_TARGET_DIR/build.log"
if ! (cd "$here/sim" && cargo build --offline --locked) >"$log" 2>&1; then
  grep -E -A12 '^error' "$log" | head -60 >&2
  echo "build failed (log: $log)" >&2
  exit 2
fi
