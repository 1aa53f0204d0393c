#!/bin/bash
# usage: check.sh <property> [quick|thorough|replay <file>]   or   check.sh build
# Builds the harness from /repo's working tree (hooks on) and runs the suites of one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" RUSTUP_TOOLCHAIN=1.90 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/engine/target"
export RUSTFLAGS="--cfg tonbo_verif --cap-lints allow"
unset CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
ENG="$PWD/engine"
mkdir -p "$CARGO_TARGET_DIR" evidence
export TONBO_VERIF_HASH=$( (find /repo/src -name '*.rs' -print0 | sort -z | xargs -0 cat; cat /repo/Cargo.toml "$ENG"/incrate/*.rs) | sha256sum | cut -c1-16)
LOG="$CARGO_TARGET_DIR/build.log"
dropped=""
build() {
  local root="$CARGO_TARGET_DIR/root.rs" tmp="$CARGO_TARGET_DIR/root.rs.tmp"
  cp "$ENG/incrate/all.rs" "$tmp"
  for m in $dropped; do grep -v "//@$m\b" "$tmp" > "$tmp.2"; mv "$tmp.2" "$tmp"; done
  cmp -s "$tmp" "$root" || cp "$tmp" "$root"
  rm -f "$tmp"
  TONBO_VERIF_SRC="$root" TONBO_VERIF_DROPPED="$dropped" cargo build --offline --locked --manifest-path "$ENG/Cargo.toml" >"$LOG" 2>&1
}
exec 9>"$CARGO_TARGET_DIR/.lock"; flock 9
for attempt in 1 2 3 4 5 6; do
  if build; then ok=1; break; fi
  bad=$(grep -oE '^ *--> /verif/engine/incrate/s_[a-z0-9_]+\.rs' "$LOG" | grep -oE 's_[a-z0-9_]+' | sort -u)
  new=0
  for m in $bad; do case " $dropped " in *" $m "*) ;; *) dropped="$dropped $m"; new=1;; esac; done
  if [ $new = 0 ]; then break; fi
done
if [ -z "$ok" ]; then grep -E '^error' -A6 "$LOG" | head -60 >&2; echo "harness build failed" >&2; exit 2; fi
[ -n "$dropped" ] && { echo "note: suites not compiling against this tree:$dropped"; grep -E '^error' -A4 "$LOG" | head -5; }
[ "$1" = build ] && exit 0
cp "$CARGO_TARGET_DIR/debug/vh" "$CARGO_TARGET_DIR/vh-$$" ; exec 9>&-
SCR=$(mktemp -d /tmp/tonbo-verif-XXXXXX)
export VERIF_SCRATCH="$SCR"
"$CARGO_TARGET_DIR/vh-$$" "$@"
rc=$?
rm -rf "$SCR" "$CARGO_TARGET_DIR/vh-$$"
exit $rc
