#!/bin/bash
# build.sh <harness>: build a harness against /repo's working tree, offline.
cd "$(dirname "$0")/$1" || exit 2
if [ "$1" = harness_eval ]; then
  # the evaluation crate only builds with the old toolchain pair of /opt/vp/env.sh
  export RUSTUP_TOOLCHAIN=1.75.0 RUSTC=/root/.rustup/toolchains/nightly-2023-02-10-x86_64-unknown-linux-gnu/bin/rustc
fi
export CARGO_TARGET_DIR="$PWD/target"
out=$(cargo build --release --offline 2>&1); rc=$?
[ $rc -eq 0 ] || { echo "$out" | tail -60 >&2; exit 2; }
