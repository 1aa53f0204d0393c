#!/bin/bash
# development build: show compile errors of the harness instead of dropping suites
cd /verif
export RUSTUP_TOOLCHAIN=1.90 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/engine/target RUSTFLAGS="--cfg tonbo_verif --cap-lints allow"
cp engine/incrate/all.rs engine/target/root.rs
TONBO_VERIF_SRC=/verif/engine/target/root.rs TONBO_VERIF_DROPPED="" cargo build --offline --locked --manifest-path engine/Cargo.toml 2>&1 | grep -E '^error' -A9 | head -${1:-80}
