#!/bin/bash
# ffi.sh FEATURE... : a copy of the library from /repo's working tree as a shared object, one per feature,
# in harness/target/ffi/lib/FEATURE.so. extern "stdcall" exists only on 32-bit x86, so the copies
# are compiled with it replaced by extern "C"; everything else is as it is in /repo.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
D=$V/harness/target/ffi
mkdir -p "$D/lib"
exec 9>"$D/lock"
flock 9
rm -rf "$D/crate"
mkdir -p "$D/crate"
cp -r /repo/src /repo/Cargo.toml /repo/README.md "$D/crate/"
[ -d /repo/benches ] && cp -r /repo/benches "$D/crate/"
cp "$V/tools/ffi.lock" "$D/crate/Cargo.lock"
printf '\n[workspace]\n' >>"$D/crate/Cargo.toml"
grep -rl --include='*.rs' '"stdcall"' "$D/crate/src" | xargs -r sed -i 's/extern "stdcall"/extern "C"/'
cd "$D/crate"
for f in "$@"; do
    (CARGO_TARGET_DIR=$D/$f cargo rustc --lib --release --offline --features "$f" --crate-type cdylib -- -C debuginfo=0) >"$D/$f.log" 2>&1 || {
        echo "building the library with feature $f:"; grep -E '^error' -A6 "$D/$f.log" | head -30; exit 1; }
    cp "$D/$f/release/libseuif97.so" "$D/lib/$f.new" && mv "$D/lib/$f.new" "$D/lib/$f.so"
    if [ "$f" = python ]; then
        rm -rf "$D/pkg"; mkdir -p "$D/pkg"
        cp -r /repo/python/seuif97 "$D/pkg/"
        cp "$D/lib/python.so" "$D/pkg/seuif97/seuif97.so"
    fi
done
