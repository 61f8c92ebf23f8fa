#!/bin/bash
# extract.sh CRATE_DIR CRATE_NAME FEATURE_ARGS OUT.json [TARGET_DIR]: builds the fact extractor if needed, and
# writes the facts of the current tree of a crate (type-checked MIR) for one feature configuration
set -e
here="$(cd "$(dirname "$0")" && pwd)"
work="${VERIF_WORK:-$here/.work}"
mkdir -p "$work"
crate_dir="$(realpath -m "$1")"; crate="$2"; feats="$3"; out="$(realpath -m "$4")"; target="$(realpath -m "${5:-$work/facts-target}")"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC
sysroot="$(rustc --print sysroot)"
(
  flock 9
  (cd "$here/driver" && CARGO_TARGET_DIR="$work/driver" cargo build -q --release --offline)
) 9>"$work/driver.lock" >&2
(
  flock 9
  mkdir -p "$target" "$(dirname "$out")"
  find "$target/debug/.fingerprint" -maxdepth 1 -name "$crate-*" -exec rm -rf {} + 2>/dev/null || true
  rm -rf "$target/debug/build/$crate" "$target/debug/incremental"
  rm -f "$out"
  cd "$crate_dir"
  LD_LIBRARY_PATH="$sysroot/lib" RUSTC_WORKSPACE_WRAPPER="$work/driver/release/mirfacts" \
  MIRFACTS_CRATE="$crate" MIRFACTS_OUT="$out" CARGO_TARGET_DIR="$target" \
  RUSTFLAGS='--cfg curve25519_dalek_backend="serial" --cap-lints allow' \
  cargo check -q --offline --lib $feats
) 9>"$work/target.lock" >&2
test -s "$out"
