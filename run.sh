#!/bin/bash
# bash run.sh CXX [args]: builds one check against /repo's working tree and runs it.
# Exit 0: held. Exit 1 + VIOLATION line: broken. Anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never RUSTFLAGS=
export CARGO_TARGET_DIR="$PWD/target"
id="$1"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
log="$CARGO_TARGET_DIR/build-$bin.log"; mkdir -p "$CARGO_TARGET_DIR"
if ! cargo build --offline --release --manifest-path mc/Cargo.toml --bin "$bin" >"$log" 2>&1; then
    tail -40 "$log"; echo "build of $id failed"; exit 2
fi
exec "$CARGO_TARGET_DIR/release/$bin" "$@"
