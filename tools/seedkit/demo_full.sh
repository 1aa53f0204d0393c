#!/bin/bash
# Runs demo.rs (an in-crate test module) against the whole crate; the unavailable dependency aisle
# is replaced by the stand-in beside this script.
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/partial/common.sh
S=$(mktemp -d /tmp/seed-demo-XXXXXX); trap 'rm -rf "$S"' EXIT
export RUSTFLAGS="--cap-lints warn"
mkdir "$S/c"; cp -a /repo/src "$S/c/"; cp -a "$P/crate/target" "$S/c/"; cp -a "$D/aisle" "$S/aisle"
cp "$D/Cargo.lock.full" "$S/c/Cargo.lock"
sed -E 's#^aisle = .*#aisle = { path = "'"$S"'/aisle" }#' "$P/crate/Cargo.toml" > "$S/c/Cargo.toml"
grep -q '^aisle' "$S/c/Cargo.toml" || sed -i 's#^anyhow = .*#&\naisle = { path = "'"$S"'/aisle" }#' "$S/c/Cargo.toml"
cp "$D/demo.rs" "$S/c/src/seed_demo.rs"
printf '\n#[cfg(test)]\nmod seed_demo;\n' >> "$S/c/src/lib.rs"
export TMPDIR="$S"
cd "$S/c" && cargo test --lib --offline seed_demo -- --test-threads 1 2>&1 | grep -v '^warning' | tail -40 > "$S/out"
cat "$S/out"; grep -q '^test result: ok. [1-9]' "$S/out"
