#!/bin/bash
# Builds the simulator against /repo's current working tree, offline.
# cargo decides by mtime whether a path dependency changed, so a tree whose
# files carry old mtimes would go unnoticed: compare the contents ourselves.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=$PATH:${HOME:-/root}/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$here/sim/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
cd "$here/sim" || exit 3
mkdir -p target
(
  flock 9
  now=$(cd /repo && find src derive Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat target/.repo-state 2>/dev/null)" != "$now" ]; then
    cargo clean --offline -q -p knuffel -p knuffel-derive -p sim 2>/dev/null
    rm -f target/.repo-state
  fi
  if cargo build --offline -q > target/build.log 2>&1; then
    echo "$now" > target/.repo-state
  else
    grep -v '^warning' target/build.log | tail -40 >&2
    echo "build of the simulator against /repo failed" >&2
    exit 3
  fi
) 9> target/.lock
