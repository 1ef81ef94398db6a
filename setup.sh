#!/bin/bash
# Builds the checker once.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
cd "$here/mc" && cargo build --offline --locked
