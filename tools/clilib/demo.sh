#!/bin/bash
# Runs the demonstration beside this file against the command-line client of the
# repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.86.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$repo/target"
unset BPF_OUT_DIR SBF_OUT_DIR
scratch=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
timeout 250 cargo build --workspace --features solana-slashing-program/test-sbf --offline --bins || exit 2
cd "$scratch" || exit 2
timeout 100 python3 "$here/demo.py" "$repo/target/debug/spl-slashing" "$scratch"
