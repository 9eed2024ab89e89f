#!/bin/bash
# Builds main.rs (beside this file) against the crates in /repo, as seen by the offline workspace, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "${work:?}"' EXIT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$work/target}"
ws=/opt/vp/ws
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$ws/Cargo.lock" "$work/Cargo.lock"
{
cat <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[profile.dev]
opt-level = 1
debug = false
overflow-checks = true
[dependencies]
TOML
grep '^//@ ' "$here/main.rs" | sed 's|^//@ ||' | while read -r d; do
case $d in
net) echo "mpc-net = { path = \"$ws/mpc-net\", features = [\"local\", \"tcp\", \"tls\", \"quic\", \"tcp-session\", \"tcp-session-blocking\"] }" ;;
core) echo "mpc-core = { path = \"$ws/mpc-core\" }" ;;
types) echo "co-circom-types = { path = \"$ws/co-circom/co-circom-types\" }" ;;
groth16) echo "co-groth16 = { path = \"$ws/co-circom/co-groth16\" }" ;;
plonk) echo "co-plonk = { path = \"$ws/co-circom/co-plonk\" }" ;;
*) echo "$d" ;;
esac
done
} > "$work/Cargo.toml"
cd "$work" || exit 3
cargo build --offline -q || { echo "demo does not build"; exit 4; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
