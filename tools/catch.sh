#!/bin/bash
# catch.sh ID...: apply each planted bug to /repo, run its property's check, undo
V=$(cd "$(dirname "$0")/.." && pwd); cd "$V" || exit 1
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  bash check.sh "$p" >/tmp/catch.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit $c: $(grep -E '^(violation of|the simulator)' /tmp/catch.log | cut -c1-260)"
done
