#!/bin/bash
# check.sh PROP [quick|thorough] [engine args]  decides one property on /repo's working tree
# check.sh replay FILE                          re-runs a recorded violation on the compiled code
V=$(cd "$(dirname "$0")" && pwd)
if [ "$1" = replay ]; then
  "$V/tools/build.sh" native && exec "$V/.build/vharness" replay "$2"
  exit 2
fi
P=$1; T=${2:-${VERIF_TIER:-quick}}; shift; shift
exec 9>"$V/.lock"; flock 9
"$V/tools/build.sh" || { echo "build failed"; exit 3; }
flock -u 9
exec "$V/tools/run.sh" "$P" "$T" "$@"
