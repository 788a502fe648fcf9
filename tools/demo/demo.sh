#!/bin/bash
# Compiles main.rs (with sim.rs) as an extra test target of the crate and runs it; the file is removed again.
D=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.75.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_LOG= RUST_BACKTRACE=0
N=zz_demo_$$
cp "$D/main.rs" "tests/$N.rs"
mkdir -p "tests/$N" && cp "$D/sim.rs" "tests/$N/sim.rs"
sed -i "s#^mod sim;#\#[path = \"$N/sim.rs\"] mod sim;#" "tests/$N.rs"
trap 'rm -f "$PWD/tests/$N.rs" "$PWD/tests/$N/sim.rs"; rmdir "$PWD/tests/$N"; rm -f "$PWD"/target/debug/deps/$N-*' EXIT
cargo test --locked --offline --features no-entrypoint --test $N -- --test-threads 1 2>&1 | tail -25
exit ${PIPESTATUS[0]}
