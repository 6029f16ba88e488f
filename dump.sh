#!/bin/bash
# dump.sh OUT.json : type-check the harness against /repo's current tree and write the MIR dump.
# Everything is built under $VERIF_BUILD (default: /verif/build, git-ignored).
set -euo pipefail
HERE="$(cd "$(dirname "$0")" && pwd)"
OUT="$(realpath -m "$1")"
B="${VERIF_BUILD:-$HERE/build}"
mkdir -p "$B"
exec 9>"$B/lock"; flock 9
SYS="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$SYS/lib"
if [ ! -x "$B/mirdump" ] || [ "$HERE/driver/main.rs" -nt "$B/mirdump" ]; then
  rustc +nightly --edition 2021 -O "$HERE/driver/main.rs" -o "$B/mirdump.tmp.$$" >"$B/driver.log" 2>&1 || { cat "$B/driver.log" >&2; exit 1; }
  mv "$B/mirdump.tmp.$$" "$B/mirdump"
fi
export CARGO_TARGET_DIR="$B/target" MIRDUMP_OUT="$OUT" MIRDUMP_CRATE=harness
export RUSTC_WORKSPACE_WRAPPER="$B/mirdump" CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 --sysroot /root/.cache/miri -Awarnings"
# VERIF_NDA=1: the same program without debug assertions (overflow checks stay: they are obligations, not behaviour)
[ -n "${VERIF_NDA:-}" ] && RUSTFLAGS="$RUSTFLAGS -Cdebug-assertions=off -Coverflow-checks=on" && CARGO_TARGET_DIR="$B/target-nda"
unset CARGO_INCREMENTAL || true
export CARGO_INCREMENTAL=0
[ "${2:-}" = "--deps-only" ] && { cd "$HERE/harness"; cargo +nightly check --offline --locked -q --target x86_64-unknown-linux-gnu; exit 0; }
# cargo's freshness cache would skip the wrapper: force the two workspace crates
rm -f "$OUT"
cd "$HERE/harness"
touch "$B/stamp"
find "$CARGO_TARGET_DIR" -depth \( -path '*/build/harness/*' -o -path '*/build/libgoldilocks/*' -o -path '*.fingerprint/harness-*' -o -path '*.fingerprint/libgoldilocks-*' \) -delete 2>/dev/null || true
cargo +nightly check --offline --locked -q --target x86_64-unknown-linux-gnu ${VERIF_FEATURES:+--features "$VERIF_FEATURES"} >"$B/check.log" 2>&1 || { tail -40 "$B/check.log" >&2; exit 1; }
[ -s "$OUT" ]
