#!/bin/bash
# builds main.rs (beside this file) against the repository in the current directory and runs it
R=${DEMO_REPO:-$(pwd)}; H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$H"/*.rs "$T/src/"; cp "$R/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.1"
edition = "2021"
[dependencies]
halo2_proofs = { path = "$R/halo2_proofs" }
ff = "0.13"
group = "0.13"
rand_core = { version = "0.6", default-features = false }
[profile.dev]
opt-level = 2
debug = false
[workspace]
X
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${DEMO_TARGET:-$T/target}
unset RUSTFLAGS
cd "$T" && timeout 280 cargo run -q --offline
