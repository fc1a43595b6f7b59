#!/bin/bash
# Builds the symbolic executor against rustc's own libLLVM and the system's Z3.
set -e
cd "$(dirname "$0")/../engine"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
L=$(rustc --print sysroot)/lib
N=$(basename "$(ls $L/libLLVM-*.so | head -1)" .so)
export RUSTFLAGS="-L native=$L -l dylib=${N#lib} -C link-arg=-Wl,-rpath,$L"
export CARGO_TARGET_DIR=../build/engine
exec cargo build --offline --release "$@"
