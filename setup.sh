#!/bin/bash
cd "$(dirname "$0")" && mkdir -p out evidence && ./build.sh || exit 1
# dependencies of the Kani proofs (P02); the proofs themselves are rebuilt by every run
( cd kproofs && env -u RUSTUP_TOOLCHAIN -u CARGO_TARGET_DIR RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true cargo kani --target-dir $PWD/../target/kani --only-codegen ) >out/kani-setup.log 2>&1 || tail -5 out/kani-setup.log
exit 0
