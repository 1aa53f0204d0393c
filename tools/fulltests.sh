#!/bin/bash
# Development aid: run all upstream unit tests of the whole crate (with the stand-in for the
# missing dependency) in a scratch copy of /repo's HEAD.
D=$(mktemp -d /tmp/full-XXXXXX); trap 'rm -rf "$D"' EXIT
git clone -q ${SRC:-/repo} "$D/repo" && cd "$D/repo" || exit 2
sed -i 's#^aisle = { git.*#aisle = { path = "/verif/stubs/aisle" }#; /^criterion/d' Cargo.toml
rm -rf benches; sed -i '/\[\[bench\]\]/,/^$/d' Cargo.toml
cp /opt/vp/partial/crate/Cargo.lock .
RUSTUP_TOOLCHAIN=1.90 RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR=${FULL_TARGET:-$D/target} \
  cargo test --offline --lib --test read_smoke --no-fail-fast 2>&1 | grep -E "^test .*FAILED|test result|^error|panicked" -A4
