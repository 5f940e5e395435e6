#!/bin/bash
# check.sh ID TIER: builds the simulator against /repo's current tree and decides one property.
cd "$(dirname "$0")/sim" || exit 2
. ./env.sh
export HPLSIM_ROOT="$(cd .. && pwd)"
out=$(cargo build --release --offline 2>&1)
if [ $? -ne 0 ]; then
  echo "$out" | tail -40
  echo "check.sh: the simulator does not build against this tree"
  exit 2
fi
exec "$CARGO_TARGET_DIR/release/hplsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
