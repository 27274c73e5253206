#!/bin/bash
# newseed.sh ID: take the uncommitted change in /tmp/wt as this bug's patch, lay the kit, undo the change
V=$(cd "$(dirname "$0")/.." && pwd); mkdir -p "$V/seeded/$1"
git -C /tmp/wt diff >"$V/seeded/$1/patch.diff"; git -C /tmp/wt checkout -q -- .
bash "$V/tools/mkseed.sh" "$1"; ls -la "$V/seeded/$1"
