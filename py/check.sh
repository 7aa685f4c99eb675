#!/bin/bash
# py/check.sh <quick|thorough>: build the Python extension module from /repo's working tree, and the
# harness, and compare the two.
set -u
V="$(cd "$(dirname "$0")/.." && pwd)"
export VERIF_DIR="$V" CARGO_NET_OFFLINE=true
REPO="${GSMC_REPO:-/repo}"
PY=/opt/vp/venv/bin/python
[ -x "$PY" ] || PY="$(command -v python3)"
mkdir -p "$V/target/pyext" "$V/target/pymod" "$V/evidence" "$V/out"
# a crate outside /repo with the sources of the bindings in /repo, so that nothing is written there
{
  sed -e '/^\[lib\]/,/^\[/{/^path *=/d}' \
      -e "s#^\[lib\]#[lib]\npath = \"$REPO/python/src/lib.rs\"#" \
      -e "s#path = \"\.\.\"#path = \"$REPO\"#" \
      -e '/^readme *=/d' "$REPO/python/Cargo.toml"
  grep -q '^\[workspace\]' "$REPO/python/Cargo.toml" || printf '\n[workspace]\n'
} > "$V/target/pyext/Cargo.toml.new"
cmp -s "$V/target/pyext/Cargo.toml.new" "$V/target/pyext/Cargo.toml" || cp "$V/target/pyext/Cargo.toml.new" "$V/target/pyext/Cargo.toml"
if [ -f "$REPO/python/Cargo.lock" ]; then cp "$REPO/python/Cargo.lock" "$V/target/pyext/Cargo.lock"
else cp "$V/py/Cargo.lock" "$V/target/pyext/Cargo.lock"; fi
( cd "$V/harness" && CARGO_TARGET_DIR="$V/target/h" cargo build --release --offline >"$V/out/build-C23-harness.log" 2>&1 ) &
h=$!
PYO3_PYTHON="$PY" CARGO_TARGET_DIR="$V/target/p" cargo build --release --offline --manifest-path "$V/target/pyext/Cargo.toml" >"$V/out/build-C23-python.log" 2>&1
p=$?
wait $h || { tail -40 "$V/out/build-C23-harness.log"; echo "build of harness failed"; exit 2; }
[ $p -eq 0 ] || { tail -40 "$V/out/build-C23-python.log"; echo "build of the Python module failed"; exit 2; }
cp "$V/target/p/release/libpyglobalsearch.so" "$V/target/pymod/pyglobalsearch.so" || exit 2
export GSMC_PYTHON="$PY" GSMC_PYMOD="$V/target/pymod"
exec "$V/target/h/release/gsmc" C23 "${1:-quick}"
