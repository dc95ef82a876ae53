#!/bin/bash
# usage: check.sh ID [quick|thorough] — rebuild the simulator against /repo's working tree and run one check.
set -u
cd "$(dirname "$0")" || exit 2
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
bash ./build.sh || exit 2
VERIF_ROOT="$PWD" exec ./sim/target/release/sim check "$ID" "$TIER"
