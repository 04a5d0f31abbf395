#!/bin/bash
# Builds the Python extension module from /repo's working tree, into /verif/target/py.
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_INCREMENTAL=0 RUSTFLAGS="-Awarnings"
export PYO3_PYTHON="$(python3-vt -c 'import sys; print(sys.executable)')"
target="$(cd "$(dirname "$0")/.." && pwd)/target/py"
cd "$(dirname "$0")/ext" || exit 2
CARGO_TARGET_DIR="$target" cargo build --offline --locked --quiet || exit 2
