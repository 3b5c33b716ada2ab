#!/bin/bash
# build.sh OUT SCENARIO.cc [extra compile flags / sources...]
# Compiles the scenario (which includes the real gemmlowp headers) with
# thread-sanitizer instrumentation and links it with mcrt instead of libtsan.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$1; SRC=$2; shift 2
REPO=${GEMMLOWP_REPO:-/repo}
D=$(mktemp -d "${TMPDIR:-/tmp}/mcb.XXXXXX")
trap 'rm -rf "$D"' EXIT
EXTRA_SRC=(); FLAGS=()
for a in "$@"; do case $a in *.cc) EXTRA_SRC+=("$a");; *) FLAGS+=("$a");; esac; done
REDEF=()
for s in memcpy memmove memset printf fprintf vprintf vfprintf puts fputs putchar fputc fwrite fflush exit; do
  REDEF+=(--redefine-sym "$s=mc_$s")
done
n=0; objs=()
pids=()
for s in "$SRC" "${EXTRA_SRC[@]}"; do
  o=$D/o$n.o; n=$((n+1)); objs+=("$o")
  ( g++ -std=c++11 -O1 -g -w -U_FORTIFY_SOURCE -fsanitize=thread -fno-builtin-printf -fno-builtin-fprintf -DGEMMLOWP_VERIF_BUSYWAIT_NOPS=${MC_NOPS:-64} \
      -I"$REPO" -I"$HERE" "${FLAGS[@]}" -c "$s" -o "$o" && objcopy "${REDEF[@]}" "$o" ) & pids+=($!)
done
g++ -O2 -g -std=c++17 -U_FORTIFY_SOURCE -fno-stack-protector -fno-builtin -w -c "$HERE/mcrt.cc" -o "$D/mcrt.o" & pids+=($!)
for p in "${pids[@]}"; do wait "$p"; done
g++ -no-pie -o "$OUT" "${objs[@]}" "$D/mcrt.o" -lpthread
