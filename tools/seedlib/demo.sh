#!/bin/bash
# builds the small program beside this script against the crate in the current directory and runs it in a scratch folder
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/demo/src" "$W/scratch"
cp "$D"/*.rs "$W/demo/src/"
cp "$R/Cargo.lock" "$W/demo/"
cat > "$W/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
disc_riider = { path = "$R" }
binrw = "0.15.0"
sha1 = "0.11.0"
[workspace]
T
cd "$W/demo" || exit 3
CARGO_TARGET_DIR="$W/t" cargo build --offline -q 2>"$W/log" || { cat "$W/log"; exit 4; }
cd "$W/scratch" && ISO_TOOL="$R/target/debug/iso-tool" PYLIB="$R/target/debug/libdisc_riider_py.so" DEMO_DIR="$D" timeout 200 "$W/t/debug/demo"
