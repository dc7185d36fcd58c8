#!/bin/bash
# Exports the type-checked, resolved MIR of every crate of the /repo workspace to .work/mir/*.json.
# Always re-exports from /repo's current working tree (cargo's freshness cache for the workspace
# crates is dropped first).  Nothing of /repo is executed.
set -euo pipefail
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${VP_REPO:-/repo}"
WORK="${VP_WORK:-$VERIF/.work}"
mkdir -p "$WORK"
exec 9>"$WORK/lock"; flock 9
export CARGO_NET_OFFLINE=true
SYSROOT="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$SYSROOT/lib"
DRV="$VERIF/driver/target/debug/mirdump"
if [ ! -x "$DRV" ] || [ "$VERIF/driver/src/main.rs" -nt "$DRV" ]; then
  (cd "$VERIF/driver" && env -u RUSTUP_TOOLCHAIN cargo build --offline -q) >&2
fi
[ "${1:-}" = "--driver-only" ] && [ -z "${VP_WARM:-}" ] && exit 0
if [ ! -e "$REPO/Cargo.lock" ] && [ -e /opt/vp/Cargo.lock ]; then cp /opt/vp/Cargo.lock "$REPO/Cargo.lock"; fi
export VP_MIR_OUT="$WORK/mir" CARGO_TARGET_DIR="$WORK/target" RUSTUP_TOOLCHAIN=nightly
export PYO3_PYTHON="${PYO3_PYTHON:-/usr/bin/python3.12}" RUSTC="$VERIF/driver/bin/rustc" RUSTC_WORKSPACE_WRAPPER="$DRV"
rm -rf "$VP_MIR_OUT"; mkdir -p "$VP_MIR_OUT"
for p in disc_riider disc-riider-py iso-tool disc_riider_py iso_tool; do
  rm -rf "$CARGO_TARGET_DIR/debug/build/$p" "$CARGO_TARGET_DIR"/debug/.fingerprint/"$p"-*
done
rm -rf "$CARGO_TARGET_DIR/debug/incremental"
cd "$REPO"
RUSTFLAGS="-Awarnings" cargo check --workspace --offline -q >&2
for c in disc_riider disc_riider_py iso_tool; do
  [ -s "$VP_MIR_OUT/$c.json" ] || { echo "export: $c.json was not produced" >&2; exit 3; }
done
