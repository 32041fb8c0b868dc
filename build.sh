#!/bin/bash
# Builds the simulator (real code of /repo's working tree under the simulated std) into /verif/target.
set -e
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
V="$(cd "$(dirname "$0")" && pwd)"
T="$V/target"
mkdir -p "$T/simstd"
( # one builder at a time
  flock 9
  KEY="$(cat "$V"/simstd/*.rs | sha256sum | cut -c1-16) $(rustc --version)"
  S="$T/simstd/$(echo "$KEY" | sha256sum | cut -c1-16)"   # a new directory makes cargo rebuild its users
  if [ ! -f "$S/ok" ]; then
    mkdir -p "$S"
    rustc --edition 2021 -C opt-level=2 --crate-type rlib --crate-name simstd "$V/simstd/lib.rs" --out-dir "$S"
    touch "$S/ok"
  fi
  export RUSTFLAGS="--cfg verif_sim --extern simstd=$S/libsimstd.rlib -L $S -A warnings"
  export CARGO_TARGET_DIR="$T/cargo"
  cd "$V/sim"
  cargo build --release --offline -q
) 9> "$T/lock"
