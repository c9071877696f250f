#!/bin/bash
# Checks that the simulator builds from /repo's working tree and is deterministic; every check rebuilds it for itself.
HERE=$(cd "$(dirname "$0")/.." && pwd)
cd "$HERE" || exit 2
mkdir -p build evidence replays
B="$HERE/build/setup-$$"
trap 'rm -rf "$B"' EXIT
bin/build.sh "$B" || exit 2
for s in 1 2 3; do
  a=$("$B/sim" run P01 $s | head -1); b=$("$B/sim" run P01 $s | head -1)
  [ "$a" = "$b" ] || { echo "the simulator is not deterministic: $a / $b"; exit 2; }
done
echo "simulator builds and repeats"
