#!/bin/bash
# dump.sh OUTDIR: writes the MIR of the workspace in ${REPO:-/repo} to OUTDIR/<crate>.json.
set -e
out=$1; repo=${REPO:-/repo}
here=$(cd "$(dirname "$0")/.." && pwd)
cache=${SCUT_CACHE:-$here/.cache}
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
export MIRDUMP_SYSROOT=$(rustc --print sysroot)
mkdir -p "$cache" "$out"
exec 9>"$cache/lock"; flock 9
(cd "$here/driver" && CARGO_TARGET_DIR=$cache/driver cargo build --offline -q)
export LD_LIBRARY_PATH=$MIRDUMP_SYSROOT/lib RUSTC=$here/tools/rustc-shim
export RUSTC_WORKSPACE_WRAPPER=$cache/driver/debug/mirdump MIRDUMP_OUT=$out
export CARGO_TARGET_DIR=$cache/target
cd "$repo"
# Cargo skips crates it believes are up to date, and with them the wrapper.
rm -rf "$cache"/target/debug/.fingerprint/scutiger-* "$cache"/target/debug/build/scutiger-* "$cache"/target/debug/incremental
rm -f "$out"/*.json
cargo check --workspace --offline -q
for c in scutiger_core scutiger_lfs git_lfs_transfer git_at git_recent_refs; do
    [ -s "$out/$c.json" ] || { echo "dump.sh: no MIR of $c" >&2; exit 1; }
done
