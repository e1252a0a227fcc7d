#!/bin/bash
# Runs the demonstration beside this file against the repository in the
# current directory, in a scratch copy of its sources.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.86.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$repo/target" RUST_LOG=error
unset BPF_OUT_DIR SBF_OUT_DIR
scratch=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
cp -a "$repo/Cargo.toml" "$repo/Cargo.lock" "$repo/program" "$repo/clients" "$scratch/" || exit 2
[ -e "$repo/rust-toolchain.toml" ] && cp -a "$repo/rust-toolchain.toml" "$scratch/"
find "$scratch/program/tests" -name '*.rs' -exec rm -f {} +
cp "$here/demo.rs" "$scratch/program/tests/vdemo.rs" || exit 2
cp "$here/common.rs" "$scratch/program/vdemo_common.rs" || exit 2
cd "$scratch" || exit 2
# (the same targets as in the ordinary build share its dependencies: hence --bins)
timeout 280 cargo test --workspace --features solana-slashing-program/test-sbf --offline \
    --bins --test vdemo -- --test-threads 4
