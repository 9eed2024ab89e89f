#!/bin/bash
# Prebuilds the harness crates so that the checks only rebuild what changed in /repo.
. "$(dirname "$(readlink -f "$0")")/env.sh"
cd "$VERIF_DIR" || exit 2
mkdir -p evidence replays
./build.sh $(cat crates.txt)
