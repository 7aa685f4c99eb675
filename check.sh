#!/bin/bash
# check.sh <property> <quick|thorough>: build the harness from /repo's working tree and run a check.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$V" CARGO_NET_OFFLINE=true
ID="$1"; TIER="${2:-quick}"
mkdir -p "$V/target" "$V/evidence" "$V/out"
build() { # <crate> <target dir> [cargo arguments]
  local c="$1" t="$2"; shift 2
  CARGO_TARGET_DIR="$V/target/$t" cargo build --release --offline --manifest-path "$V/$c/Cargo.toml" "$@" >"$V/out/build-$ID-$c.log" 2>&1 && return 0
  tail -40 "$V/out/build-$ID-$c.log"; echo "build of $c failed"; return 1
}
case "$ID" in
C23) exec "$V/py/check.sh" "$TIER" ;;
esac
build harness h || exit 2
case "$ID" in
C06)
  # first the real pools, whose results the controlled schedules are then compared with
  export GSMC_REAL="$V/out/real-digests.txt"
  "$V/target/h/release/gsmc" C06 "$TIER"; rc=$?
  [ $rc -eq 0 ] || exit $rc
  # the stand-in for rayon covers what this code uses of it; if the code comes to use more, the
  # schedules cannot be controlled and the verdict is that of the real pools
  if build sched s; then exec "$V/target/s/release/gssched" C06 "$TIER"; fi
  echo "controlled schedules not available: verdict from real pools only"; exit 0 ;;
C07)
  build nopar n && cp "$V/target/n/release/gsnopar" "$V/target/gsnopar" || exit 2
  build nopar n --features pb && cp "$V/target/n/release/gsnopar" "$V/target/gsnopar-pb" || exit 2
  export GSMC_NOPAR="$V/target/gsnopar" GSMC_PB="$V/target/gsnopar-pb" ;;
esac
exec "$V/target/h/release/gsmc" "$ID" "$TIER"
