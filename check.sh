#!/bin/bash
# check.sh ID TIER: builds the harness against /repo's working tree and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true
mkdir -p evidence replay
mkdir -p harness/run
log="harness/run/build-$1.log"
if ! (cd harness && cargo build --release --offline --locked) >"$log" 2>&1; then
  tail -40 "$log" >&2
  echo "ERROR: the harness does not build" >&2
  exit 2
fi
exec harness/target/release/vp check "$1" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}"
