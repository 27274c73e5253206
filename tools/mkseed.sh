#!/bin/bash
# mkseed.sh ID: lay the kit beside a demo.rs
cd "$(dirname "$0")/.." || exit 1
mkdir -p "seeded/$1"
cp tools/kit/kit.rs tools/kit/kit.py tools/kit/demo.sh "seeded/$1/"
tar czf "seeded/$1/kit.tgz" --sort=name --mtime=2026-01-01 --owner=0 --group=0 --exclude=target --exclude=Cargo.lock --exclude=__pycache__ sim
