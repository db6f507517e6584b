#!/bin/bash
# Runs main.rs (beside this script) against the real crates of /repo, in a scratch cargo package.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
work=$(mktemp -d)
trap 'rm -rf -- "$work"' EXIT
export CARGO_TARGET_DIR=$work/target
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
ws=/opt/vp/partial/ws
cp $ws/Cargo.lock "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
$(cat "$here/deps")
T
cd "$work"
cargo run --offline -q
