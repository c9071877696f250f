#!/bin/bash
# Builds the simulator around the program sources of /repo's current working tree.
# usage: build.sh OUTDIR     (REPO overrides /repo, for planted-bug experiments in copies)
set -e
OUT=$(realpath -m "${1:?usage: build.sh OUTDIR}")
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
CC=${CC:-clang-18}
CXX=${CXX:-clang++-18}
J=$(nproc)
mkdir -p "$OUT/prog" "$OUT/simo" "$OUT/cfg"

# the configure result of this repository, or the committed copy of it
if [ -f "$REPO/_build/config.h" ]; then cp "$REPO/_build/config.h" "$OUT/cfg/config.h"; else cp "$HERE/sim/config.fallback.h" "$OUT/cfg/config.h"; fi

SRCS=$(tr -d '\\' < "$REPO/makefile.am" | tr -s ' \t' '\n\n' | grep -E '^[A-Za-z0-9_./-]+\.c$' | sort -u)
[ -n "$SRCS" ] || SRCS=$(cd "$REPO" && ls *.c)

{
  for s in $(cat "$HERE/sim/syms.txt"); do echo "$s sim_$s"; done
  echo "main df_main"
} > "$OUT/redef.txt"

PF="-O1 -g1 -w -fno-pie -fno-common -fsanitize=address -fno-sanitize-address-globals-dead-stripping -fno-omit-frame-pointer -fsanitize-coverage=edge,trace-pc,trace-loads,trace-stores -DHAVE_CONFIG_H -DDOWNLOAD_LIBCURL -I$OUT/cfg -I$REPO"
SF="-std=c++17 -O1 -g1 -w -fno-pie -I$HERE/sim"
{
  for s in "$HERE"/sim/*.cc; do
    o="$OUT/simo/$(basename "$s" .cc).o"
    echo "$CXX $SF -c '$s' -o '$o'"
  done
  for s in $SRCS; do
    o="$OUT/prog/$(echo "$s" | tr '/' '_' | sed 's/\.c$/.o/')"
    echo "$CC $PF -c '$REPO/$s' -o '$o.raw' && objcopy --redefine-syms='$OUT/redef.txt' --rename-section .data=dfdata --rename-section .bss=dfbss '$o.raw' '$o' && rm -f '$o.raw'"
  done
} > "$OUT/jobs.txt"
xargs -P "$J" -d '\n' -I{} sh -c '{}' < "$OUT/jobs.txt"
$CXX -no-pie -fsanitize=address "$OUT"/simo/*.o "$OUT"/prog/*.o -o "$OUT/sim" -lpthread
