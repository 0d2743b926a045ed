#!/bin/bash
# Builds the model checker against /repo's current working tree (offline).
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export OPENSSL_NO_VENDOR=1 RUSTC_WRAPPER=/verif/mc/rustc-wrap.sh CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_INCREMENTAL CARGO_BUILD_TARGET
cd /verif/mc || exit 2
exec cargo build --offline --locked -q "$@"
