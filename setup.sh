#!/bin/bash
# Builds the simulator once, so that the checks only rebuild what changed in /repo.
cd "$(dirname "$0")/sim" || exit 2
. ./env.sh
cargo build --release --offline || exit 2
"$CARGO_TARGET_DIR/release/hplsim" selftest 96
