#!/bin/bash
# Builds the harness (and /repo's crate, with the observation points on) from /repo's working tree.
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg s2gpp_verif -Awarnings" CARGO_TARGET_DIR=/verif/target
cd "$(dirname "$0")/harness" && exec cargo build --offline --locked --quiet "$@"
