#!/bin/bash
# replay.sh FILE: rebuilds against /repo's current tree and replays a recorded violation step by step.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")/sim" || exit 2
. ./env.sh
cargo build --release --offline >/dev/null 2>&1 || exit 2
exec "$CARGO_TARGET_DIR/release/hplsim" replay "$f"
