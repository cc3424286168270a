#!/bin/bash
# Builds the shared machinery once (checks build what they need themselves).
cd /verif/mc || exit 1
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_TARGET_DIR=/verif/target
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
exec cargo build --offline --locked --release -p mc_core 2>/verif/build.setup.log
