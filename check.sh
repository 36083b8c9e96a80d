#!/bin/bash
# check.sh PROPERTY TIER : rebuilds the simulator from /repo's working tree and explores.
here=$(cd "$(dirname "$0")" && pwd)
B=$(bash "$here/sim/build.sh") || { echo "simulator build failed" >&2; exit 4; }
exec "$B/msim-native" check --property "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" --verif "$here"
