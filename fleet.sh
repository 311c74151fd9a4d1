#!/bin/bash
# Builds the members of the fleet: the same program linked with knuffel built
# with each of the sixteen sets of optional features.
# exit 4: some set does not build although the full one does (fleet/target/failed)
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=$PATH:${HOME:-/root}/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
out="$here/sim/target/fleet"
t="$here/fleet/target"
mkdir -p "$out" "$t"
(
  flock 9
  now=$(cd /repo && { find src derive Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum "$here"/fleet/src/*.rs "$here"/fleet/Cargo.toml; } | sha256sum)
  [ "$(cat "$t/.state" 2>/dev/null)" = "$now" ] && ls "$out"/15.so >/dev/null 2>&1 && exit 0
  rm -f "$t/.state" "$t/failed" "$t"/err.* "$out"/*.so
  chain() { # number, masks...
    local k=$1; shift
    export CARGO_TARGET_DIR="$t/c$k"
    (cd "$here/fleet" && cargo clean --offline -q -p knuffel -p knuffel-derive -p fleet 2>/dev/null)
    local m f
    for m in "$@"; do
      f=
      [ $((m & 1)) != 0 ] && f=$f,derive
      [ $((m & 2)) != 0 ] && f=$f,base64
      [ $((m & 4)) != 0 ] && f=$f,lines
      [ $((m & 8)) != 0 ] && f=$f,cbor
      if (cd "$here/fleet" && cargo build --offline --locked -q --features "${f#,}") > "$t/err.$m" 2>&1; then
        cp "$CARGO_TARGET_DIR/debug/libfleet.so" "$out/$m.so" && rm "$t/err.$m"
      fi
    done
  }
  chain 0 15 7 3 1 & chain 1 0 2 4 6 & chain 2 8 10 12 14 & chain 3 13 11 9 5 & wait
  if [ ! -f "$out/15.so" ]; then
    grep -v '^warning' "$t/err.15" | tail -40 >&2
    echo "build of the full member of the fleet failed" >&2
    exit 3
  fi
  for m in $(seq 0 15); do [ -f "$out/$m.so" ] || echo "$m" >> "$t/failed"; done
  [ -f "$t/failed" ] && exit 4
  echo "$now" > "$t/.state"
) 9> "$t/.lock"
