#!/bin/bash
# bash replay.sh FILE: runs a recorded violation again against /repo's current tree, call by call.
# Exit 1: it came back; 0: it did not.
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
bash ./build.sh || exit 2
export DST_ROOT=$PWD DST_BIN=$PWD/build/bin/debug DST_LIB=$PWD/build/sim/debug/libsimos.so
exec build/sim/debug/dst replay "$f"
