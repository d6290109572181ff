#!/bin/bash
# Builds main.rs against the crates in /repo, in a scratch folder, and runs check.mjs on what it produces.
set -u
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH HOME=/root CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUST_BACKTRACE=0 CARGO_INCREMENTAL=0
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/tmp" "$d/bin"
cp "$here"/main.rs "$d/src/main.rs"
cp "$here"/Cargo.lock "$d/Cargo.lock"
cp "$here"/Cargo.toml.in "$d/Cargo.toml"
cp -r "$here"/shims "$d/shims"
export CARGO_TARGET_DIR=$d/target
cargo build -q --offline --manifest-path "$d/Cargo.toml" >&2 || exit 3
[ -f "$here/wasm-merge" ] && install -m 755 "$here/wasm-merge" "$d/bin/wasm-merge"
cp "$here"/*.mjs "$d/tmp/"
cd "$d/tmp" && TMPDIR=$d/tmp PATH=$d/bin:$PATH DEMO=$d/target/debug/demo timeout 100 node check.mjs
