#!/bin/bash
# check.sh PROPERTY [quick|thorough] : rebuild the harness from /repo's working tree, run one property.
# exit 0 held, 1 VIOLATION, 2 error of the check
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$HERE HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$HERE/harness/target RUSTC_WRAPPER= PYO3_PYTHON=/usr/bin/python3
unset RUSTFLAGS CARGO_BUILD_TARGET
build() {
    # cargo goes by mtimes; a file restored with an old mtime would be missed
    find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -name 'seuif97-*' -exec rm -rf {} + 2>/dev/null
    (cd "$HERE/harness" && flock "$HERE/harness/.lock" cargo build --release --offline) >"$HERE/harness/build.log" 2>&1 || {
        echo "ERROR building the harness:"; grep -E '^error' -A6 "$HERE/harness/build.log" | head -40; exit 2; }
}
mkdir -p "$HERE/evidence"
build
[ "$1" = --build ] && exit 0
tier=${2:-${VERIF_TIER:-quick}}
exec "$CARGO_TARGET_DIR/release/if97check" "$1" --tier "$tier"
