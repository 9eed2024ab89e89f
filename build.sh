#!/bin/bash
# build.sh BIN...: builds harness binaries against /repo's working tree, never against stale output.
. "$(dirname "$(readlink -f "$0")")/env.sh"
cd "$VERIF_DIR/harness" || exit 2
# Cargo compares modification times; make sure a changed source is rebuilt whatever its time says.
# Cargo.lock starts from the committed one: the same versions as /repo/Cargo.lock.
sum=$(cd /repo && find mpc-net mpc-core co-circom Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.txt' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
stamp="$CARGO_TARGET_DIR/.stamp-sources"
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    for p in mpc-net mpc-core co-circom-types co-groth16 co-plonk circom-mpc-vm; do
        rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/$p-*
    done
    mkdir -p "$CARGO_TARGET_DIR" && echo "$sum" > "$stamp"
fi
for c in "$@"; do
    cargo build --offline -q --bin "$c" || exit 1
done
