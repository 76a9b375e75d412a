#!/bin/bash
# Builds the engine once; every check builds it again if it is not there.
set -e
cd "$(dirname "$0")/../engine"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
CARGO_TARGET_DIR="$PWD/target" cargo build --offline --release
