#!/bin/bash
# usage: replay.sh FILE [-t]   replays a violation against /repo's working tree (-t prints the event trace)
HERE=$(cd "$(dirname "$0")/.." && pwd)
B="$HERE/build/replay-$$"
mkdir -p "$HERE/build"
trap 'rm -rf "$B"' EXIT
"$HERE/bin/build.sh" "$B" >/dev/null || exit 2
"$B/sim" replay "$@"
