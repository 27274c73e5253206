#!/bin/bash
# check.sh ID [--thorough]: rebuild from /repo's working tree, then decide the property.
cd "$(dirname "$0")" || exit 3
. ./env.sh
bash ./build.sh >build.log 2>&1 || { echo "the simulator does not build:"; grep -E '^error' -A8 build.log | head -60; tail -5 build.log; exit 3; }
if [ "$VERIF_TIER" = thorough ]; then set -- "$@" --thorough; fi
exec harness/target/debug/snapsim check "$@"
