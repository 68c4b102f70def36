#!/bin/bash
# developer build: errors of the harness only
cd /verif/harness; export RUSTUP_TOOLCHAIN=stable RUSTFLAGS="--cfg eastl_rs_verif"
cargo build --release --offline --features hooks 2>&1 | awk '/^(warning|error)/{p=($0 ~ /^error/)} p' | head -${1:-90}
