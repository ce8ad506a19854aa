#!/bin/bash
# Builds the MIR exporter and dumps the monomorphised MIR of /repo's current tree
# (as reached from /verif/roots) to $1.  Everything it writes lies under /verif/.cache.
set -euo pipefail
V=$(cd "$(dirname "$0")" && pwd)
OUT=${1:?output}
C=${VERIF_CACHE:-$V/.cache}; mkdir -p "$C"
N=/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu
D="$C/mirx"
h=$(sha256sum "$V/driver/src/main.rs" | cut -c1-16)
(
flock 9
if [ ! -x "$D-$h" ]; then
  "$N/bin/rustc" --edition 2021 -O "$V/driver/src/main.rs" -o "$D-$h.tmp.$$" -C link-args=-Wl,-rpath,$N/lib >"$C/driver.log" 2>&1 || { cat "$C/driver.log" >&2; exit 3; }
  mv "$D-$h.tmp.$$" "$D-$h"
fi
) 9>"$C/lock"
export RUSTUP_TOOLCHAIN=nightly-2024-09-05 RUSTC="$D-$h" MIRX_RUSTC=$N/bin/rustc CARGO_TARGET_DIR="$C/target"
export MIRX_CRATE=vroots MIRX_OUT="$OUT" MIRX_ROOTS=openzeppelin_stylus,openzeppelin_crypto,vinst
export MIRX_STOP=stylus_core,tiny_keccak,const_hex,std,keccak_const
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow"
SRC=$(cd "${VERIF_REPO:-/repo}" && { find contracts contracts-proc lib -type f \( -name '*.rs' -o -name '*.toml' \) -not -path '*/target/*' | LC_ALL=C sort | xargs sha256sum; sha256sum Cargo.toml; } | sha256sum | cut -c1-24)
RT=$(cd "${VERIF_ROOTS:-$V/roots}" && sha256sum Cargo.toml Cargo.lock src/*.rs inst/Cargo.toml inst/src/*.rs | sha256sum | cut -c1-16)
KEY="$C/mir-$SRC-$RT-$h.jsonl"
(
flock 9
if [ ! -s "$KEY" ]; then
cd "${VERIF_ROOTS:-$V/roots}"
rm -f "$KEY.tmp"
# force the crates under verification and the roots crate to be rebuilt
find "$C/target/release/.fingerprint" -maxdepth 1 \( -name 'vroots-*' -o -name 'vinst-*' -o -name 'openzeppelin-stylus-*' -o -name 'openzeppelin-crypto-*' \) -exec rm -rf {} + 2>/dev/null || true
MIRX_OUT="$KEY.tmp" cargo check --release --offline >"$C/cargo.log" 2>&1 || { tail -40 "$C/cargo.log" >&2; exit 4; }
[ -s "$KEY.tmp" ] || { echo "no MIR exported" >&2; exit 5; }
find "$C" -maxdepth 1 -name 'mir-*.jsonl' -mmin +60 -delete 2>/dev/null || true
mv "$KEY.tmp" "$KEY"
fi
) 9>"$C/lock"
ln -sf "$KEY" "$OUT"
