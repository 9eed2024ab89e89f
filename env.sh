# Sourced by the scripts.
export VERIF_DIR="$(dirname "$(readlink -f "${BASH_SOURCE[0]}")")"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
export CARGO_TARGET_DIR="$VERIF_DIR/harness/target"
export RUST_BACKTRACE=0
