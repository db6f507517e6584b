#!/bin/bash
# Compiles the real source file(s) of /repo named in main.rs (as @REPO@/...) with stand-ins for the Substrate crates
# (stubs.rs, derives.rs beside this script) and runs main.rs against them, in a scratch folder.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/root/.cargo/bin:$PATH
work=$(mktemp -d)
trap 'rm -rf -- "$work"' EXIT
cd "$work"
sed "s#@REPO@#$repo#g" "$here/main.rs" > main.rs
q="-A warnings --edition 2021"
rustc $q --crate-type proc-macro --crate-name derives "$here/derives.rs"
cp "$here/stubs.rs" stubs.rs
# the stand-ins name themselves parity_scale_codec inside the derives
rustc $q --crate-type rlib --crate-name stubs --extern derives=libderives.so stubs.rs
ext=""
for c in common_primitives parity_scale_codec scale_info sp_runtime sp_std sp_core sp_io frame_support frame_system twox_hash; do ext="$ext --extern $c=libstubs.rlib"; done
rustc $q --crate-name demo --extern derives=libderives.so $ext -L . main.rs -o demo
./demo
