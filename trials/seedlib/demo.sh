#!/bin/bash
# Runs demo.rs (beside this file) as an integration test against the checkout in the current directory.
# Everything is written to a scratch crate under $TMPDIR and to the checkout's git-ignored target folder.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX")" || exit 99
trap 'rm -rf -- "$scratch"' EXIT
mkdir -p "$scratch/src" "$scratch/tests"
: > "$scratch/src/lib.rs"
cp "$here/demo.rs" "$scratch/tests/demo.rs"
cp "$here/harness.rs" "$scratch/src/lib.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
cat > "$scratch/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
halo-pair = { path = "$repo/contracts/halo-pair" }
halo-factory = { path = "$repo/contracts/halo-factory" }
halo-router = { path = "$repo/contracts/halo-router" }
halo-token = { path = "$repo/contracts/halo-token" }
haloswap = { path = "$repo/packages/haloswap" }
bignumber = { path = "$repo/packages/bignumber" }
cosmwasm-std = "1"
cw20 = "1"
cw20-base = "1"
EOF
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
cargo test --offline --manifest-path "$scratch/Cargo.toml" --target-dir "${DEMO_TARGET:-$repo/target}" --test demo
