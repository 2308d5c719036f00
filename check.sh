#!/bin/bash
# check.sh PROPERTY [TIER] [pbt options]: builds the engines from /repo's working tree and decides one property.
# Exit 0: held.  Exit 1: a VIOLATION line was printed.  Anything else: the check could not be run.
cd "$(dirname "$0")" || exit 2
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift 2
export VERIF_SEED=${VERIF_SEED:-1}
unset ASAN_OPTIONS UBSAN_OPTIONS
mkdir -p build evidence replays
./build.sh || { tail -30 build/make.log; echo "build failed"; exit 2; }
exec build/pbt "$id" --tier "$tier" "$@"
