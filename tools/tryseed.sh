#!/bin/bash
# tryseed.sh ID [check]: the demo on a clean copy and on a patched one (and the property's check on the patched /repo)
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1
W=/tmp/tryseed.$1; mkdir -p "$W"; git -C /repo worktree add -q --detach "$W/repo" HEAD 2>/dev/null
cd "$W/repo" && git checkout -q -- . 
( bash "$D/demo.sh" >"$W/clean.log" 2>&1; echo "clean $?" )
git apply "$D/patch.diff" || echo "PATCH FAILS"
( bash "$D/demo.sh" >"$W/bug.log" 2>&1; echo "bug $?"; tail -2 "$W/bug.log" | cut -c1-300 )
git -C /repo worktree remove --force "$W/repo"
