#!/bin/bash
# Builds main.rs against the crates of the repository in the current directory
# and runs it: exit 0 if the property holds for its input.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
scratch=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 9
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
cat >"$scratch/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
av-metrics = "0.9"
av-metrics-decoders = { version = "0.3.2", features = [FEATURES] }
rayon = "1.5"

[patch.crates-io]
av-metrics = { path = "$repo/av_metrics" }
av-metrics-decoders = { path = "$repo/av_metrics_decoders" }

[profile.dev]
opt-level = 1
T
cd "$scratch" || exit 9
cargo build --offline -q || exit 9
timeout 120 "$scratch/target/debug/demo" "$scratch"
