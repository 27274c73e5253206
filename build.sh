#!/bin/bash
# The tree the simulator compiles (from /repo as it is now), then the simulator; one build at a time.
cd "$(dirname "$0")" || exit 3
. ./env.sh
exec 9>/tmp/snapsim.build.lock
flock 9
mkdir -p build
python3 sim/mktree.py ${SNAP_REPO:-/repo} build || exit 3
cd harness && cargo build -q --offline
