#!/bin/bash
# builds the monitors once (checks rebuild incrementally from /repo's current tree)
cd "$(dirname "$0")/harness" || exit 1
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS
cargo build --offline --profile checked --bins || exit 1
python3 -c 'import json' || exit 1
exit 0
