#!/bin/bash
# Builds the executor, the native replayer and the IR of all harnesses (checks rebuild what changed).
set -e
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
T=${VERIF_TARGET:-$PWD/target}
cargo build --release --offline --manifest-path symex/Cargo.toml --target-dir "$T/symex"
mkdir -p "$T/sym"
bash tools/build_ir.sh "$T/sym" "$T/sym/harness.ll" h_eval eval
export RUSTFLAGS="--cfg hybridcvrp_verif"
cargo build --release --offline --bin replay --manifest-path harness/Cargo.toml --target-dir "$T/native" --no-default-features --features eval
cargo build --offline --bin replay --manifest-path harness/Cargo.toml --target-dir "$T/native" --no-default-features --features eval
