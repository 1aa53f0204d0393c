#!/bin/bash
# Runs demo.rs (an in-crate test module) against the part of /repo that build.sh compiles.
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/partial/common.sh
S=$(mktemp -d /tmp/seed-demo-XXXXXX); trap 'rm -rf "$S"' EXIT
(slice) >/dev/null 2>&1 || { echo "slice failed"; exit 2; }
export RUSTFLAGS="--cap-lints warn"
mkdir "$S/c"; cp -a "$P/crate/src" "$P/crate/Cargo.toml" "$P/crate/Cargo.lock" "$P/crate/target" "$S/c/"
cp "$D/demo.rs" "$S/c/src/seed_demo.rs"
printf '\n#[cfg(test)]\nmod seed_demo;\n' >> "$S/c/src/lib.rs"
export TMPDIR="$S"
cd "$S/c" && cargo test --lib --offline seed_demo -- --test-threads 1 2>&1 | grep -v '^warning' | tail -30 > "$S/out"
cat "$S/out"; grep -q '^test result: ok. [1-9]' "$S/out"
