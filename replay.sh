#!/bin/bash
# replay.sh FILE [v|vv] : re-executes a recorded history exactly; exit 1 when the violation shows again.
here=$(cd "$(dirname "$0")" && pwd)
B=$(bash "$here/sim/build.sh") || { echo "simulator build failed" >&2; exit 4; }
exec "$B/msim-native" replay "$@"
