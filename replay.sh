#!/bin/bash
# replay.sh FILE [-v]: executes a replay file again (exit status 1: the violation is there).
F="$(realpath "$1")"; shift
cd "$(dirname "$0")" || exit 2
OUT=.build
if grep -q '^prop P23$' "$F"; then export QBSIM_SAN=1; OUT=.build-san; ulimit -s 262144 2>/dev/null; fi
./build.sh || exit 2
exec $OUT/qbsim replay "$F" "$@" --home "$PWD"
