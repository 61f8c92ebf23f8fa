cd "$(dirname "$0")"; export RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-/tmp/repro-target}
cargo test --offline "$@" 2>&1 | cat
