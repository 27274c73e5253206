#!/bin/bash
# Builds the simulator from the committed files and /repo's working tree.
set -e
cd "$(dirname "$0")"
. ./env.sh
bash ./build.sh
