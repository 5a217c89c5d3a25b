#!/bin/bash
# bash check.sh ID [quick|thorough]: rebuilds from /repo's current tree and decides one property.
# Exit 0: held on everything explored; 1: VIOLATION line; 2: no answer.
cd "$(dirname "$0")" || exit 2
bash ./build.sh || exit 2
export DST_ROOT=$PWD DST_BIN=$PWD/build/bin/debug DST_LIB=$PWD/build/sim/debug/libsimos.so
exec build/sim/debug/dst check "$@"
