#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds in this scenario; nonzero: it is broken.
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d /tmp/plantdemo.XXXXXX)" || exit 99
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cp "$here/Cargo.lock.in" "$tmp/Cargo.lock"
cp "$here"/*.rs "$tmp/src/"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.98.1-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true DOCS_RS=1 RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$tmp/target}"
cd "$tmp" || exit 99
cargo build --offline -q 2>"$tmp/log" || { tail -30 "$tmp/log"; echo "demo does not build"; exit 98; }
timeout 120 "$CARGO_TARGET_DIR/debug/plantdemo"
