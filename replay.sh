#!/bin/bash
# replay.sh FILE : re-executes one recorded violation against /repo's current tree
here=$(cd "$(dirname "$0")" && pwd)
if [ "$(head -n 1 "$1")" = build ]; then
  bash "$here/build.sh" && { echo "not reproduced: the applications build"; exit 0; }
  echo "VIOLATION property=C06 replay=$1"
  exit 1
fi
if [ "$(head -n 1 "$1")" = "build fleet" ]; then
  bash "$here/fleet.sh" && { echo "not reproduced: all sets of features build"; exit 0; }
  echo "VIOLATION property=C15 replay=$1"
  exit 1
fi
bash "$here/build.sh" || exit 3
if grep -q '^property: C15$' "$1"; then bash "$here/fleet.sh" || exit 3; fi
exec "$here/sim/target/debug/sim" replay "$1"
