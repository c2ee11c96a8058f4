#!/bin/bash
# run.sh ID quick|thorough [options]: builds the simulator from /repo's current
# working tree, then decides one property.
cd "$(dirname "$0")" || exit 2
OUT=.build
if [ "${1:-}" = P23 ]; then
  # every access of the program under test is checked; its frames are larger
  export QBSIM_SAN=1; OUT=.build-san; ulimit -s 262144 2>/dev/null
fi
./build.sh || exit 2
exec $OUT/qbsim check "$@" --home "$PWD"
