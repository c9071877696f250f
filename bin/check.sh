#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Rebuilds the simulator from /repo's working tree and searches seeds for a violation.
# Exit 0: held on everything explored; 1 with a VIOLATION line: broken; anything else: the check failed.
HERE=$(cd "$(dirname "$0")/.." && pwd)
cd "$HERE" || exit 2
PROP=${1:?property}
TIER=${2:-quick}
SEED=${VERIF_SEED:-1}
case $TIER in
quick) RUNS=${RUNS:-6000} WALL=${WALL:-40} ;;
*) RUNS=${RUNS:-1000000} WALL=${WALL:-700} TIER=thorough ;;
esac
B="$HERE/build/$PROP-$$"
mkdir -p "$HERE/build" "$HERE/evidence" "$HERE/replays"
trap 'rm -rf "$B"' EXIT
if ! REPO=/repo "$HERE/bin/build.sh" "$B" >"$B.log" 2>&1; then
  cat "$B.log"; rm -f "$B.log"; echo "ERROR: the simulator could not be built from /repo"; exit 2
fi
rm -f "$B.log"
"$B/sim" check "$PROP" --seed "$SEED" --runs "$RUNS" --wall "$WALL" --jobs "$(nproc)" --tier "$TIER" \
  --known "$HERE/known_findings.txt" --replay-dir "replays" --evidence "$HERE/evidence/$PROP.json"
