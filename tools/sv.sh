#!/bin/bash
# sv.sh WORLD N FOCUS...: survey several focuses, short output
cd "$(dirname "$0")/.." || exit 1; W=$1 N=$2; shift 2
for f in "$@"; do echo "== $f"; timeout 900 harness/target/debug/snapsim survey "$W" "$f" -n "$N" 2>&1 | grep -E '^[A-Z][0-9]+ |runs in|panick' | cut -c1-330; done
