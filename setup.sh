#!/bin/bash
# Warms the build cache: compiles every check against /repo once.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never RUSTFLAGS=
export CARGO_TARGET_DIR="$PWD/target"
cargo build --offline --release --manifest-path mc/Cargo.toml --bins || exit 1
