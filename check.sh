#!/bin/bash
# check.sh CRATE PROPERTY TIER: builds the check from /repo's current tree and runs it.
# Exit 0: held on everything explored; 1 with a VIOLATION line: it did not; other: no verdict.
crate=$1; id=$2; tier=$3
. "$(dirname "$(readlink -f "$0")")/env.sh"
cd "$VERIF_DIR/harness" || exit 2
"$VERIF_DIR/build.sh" "$crate" || { echo "ERROR: $crate does not build against /repo's current tree: no verdict" >&2; exit 2; }
exec "$CARGO_TARGET_DIR/debug/$crate" "$id" "$tier"
