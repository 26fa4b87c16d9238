#!/bin/bash
# Builds every harness once; each check rebuilds what it needs from /repo by itself.
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$PWD/harness/target
for m in harness/*/Cargo.toml; do
  cargo build --release --offline --locked --manifest-path "$m" || exit 1
done
