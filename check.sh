#!/bin/bash
# check.sh PROPERTY : one registered check (tier from VERIF_TIER, seed from VERIF_SEED)
here=$(cd "$(dirname "$0")" && pwd)
if ! bash "$here/build.sh"; then
  # The simulated applications declare their types with the documented
  # annotations.  If the code generated for one of them no longer compiles,
  # there is no load whose value the annotations declare.
  log="$here/sim/target/build.log"
  if [ "$1" = C06 ] && grep -q 'could not compile `sim`' "$log" && grep -qE 'in the derive macro `(knuffel::)?Decode|proc-macro derive panicked' "$log"; then
    mkdir -p "$here/replays"
    r="$here/replays/C06-build.replay"
    { echo "build"; echo "# the code generated for an annotated type does not compile; replay.sh builds the applications again"; grep -v '^warning' "$log" | head -60; } > "$r"
    grep -m3 -A4 '^error' "$log"
    echo "VIOLATION property=C06 replay=$r"
    exit 1
  fi
  exit 3
fi
if [ "$1" = C15 ]; then
  bash "$here/fleet.sh"
  rc=$?
  if [ $rc = 4 ]; then
    mkdir -p "$here/replays"
    r="$here/replays/C15-build.replay"
    { echo "build fleet"; echo "# knuffel, or a program using what is left of it, does not compile without some optional feature although it does with all"
      echo "# (bits of a set: 1 derive, 2 base64, 4 line-numbers, 8 minicbor); replay.sh builds the sets again"
      for m in $(cat "$here/fleet/target/failed"); do echo "# set $m:"; grep -v '^warning' "$here/fleet/target/err.$m" | grep -m2 -A6 '^error'; done; } > "$r"
    head -12 "$r"
    echo "VIOLATION property=C15 replay=$r"
    exit 1
  fi
  [ $rc = 0 ] || exit 3
fi
exec "$here/sim/target/debug/sim" check "$1" "$here"
