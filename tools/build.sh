#!/bin/bash
# Builds the explorer (build/mc-<key>/mc) from /repo's working tree and /verif/mc.
# Prints the path of the binary. Usage: build.sh [repo]
set -u
export LC_ALL=C
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${1:-${NB_REPO:-/repo}}
B=$V/build
mkdir -p "$B" || exit 2
HK=$(cat "$V"/mc/*.cpp "$V"/mc/*.hpp "$V"/mc/checks/*.cpp "$V"/tools/build.sh 2>/dev/null | sha256sum | cut -c1-16)
RK=$(cd "$REPO" && find src third-party -type f \( -name '*.c' -o -name '*.h' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)
H=$B/h-$HK
N=$B/nb-$RK-$HK
CC=${CC:-gcc}; CXX=${CXX:-g++}
log=$B/build.log.$$
trap 'rm -f "$log"' EXIT
fail() { echo "build failed: $1" >&2; tail -40 "$log" >&2; exit 2; }

exec 9>"$B/.lock"; flock 9
if [ ! -e "$H/ok" ]; then
  rm -rf "$H"; mkdir -p "$H"
  ls "$V"/mc/*.cpp "$V"/mc/checks/*.cpp 2>/dev/null | xargs -P 8 -I{} sh -c \
    'f={}; '"$CXX"' -std=c++17 -O2 -g1 -fno-pie -U_FORTIFY_SOURCE -Wall -Wno-unused-function -I'"$V"'/mc -c "$f" -o "'"$H"'/$(basename "$f" .cpp).o"' >"$log" 2>&1 || fail harness
  nm --defined-only "$H/shim.o" | awk '$3 ~ /^mc_/ {n=$3; sub(/^mc_/,"",n); print n, $3}' | sort -u >"$H/redefine.syms"
  echo "main nb_main" >>"$H/redefine.syms"
  touch "$H/ok"
fi
if [ ! -e "$N/ok" ]; then
  rm -rf "$N"; mkdir -p "$N/obj" "$N/tp"
  FL="-std=c99 -D_XOPEN_SOURCE=600 -D_FILE_OFFSET_BITS=64 -O1 -g1 -fno-pie -fno-common -U_FORTIFY_SOURCE -fno-stack-protector -fwrapv -w"
  cd "$REPO" || exit 2
  {
    find src -name '*.c'
    find third-party -name '*.c'
  } | xargs -P 8 -I{} sh -c '
    f={}; o=$(echo "$f" | tr / _ | sed "s/\.c$/.o/")
    case $f in third-party/BLAKE2/*|third-party/SipHash/*) d='"$N"'/tp; x=-O3;; *) d='"$N"'/obj; x=;; esac
    '"$CC $FL"' $x -Isrc -Ithird-party -c "$f" -o "$d/$o"' >"$log" 2>&1 || fail "nano-backup sources"
  cd "$N" || exit 2
  # an ordinary build, to run on the real kernel
  "$CC" -no-pie -o nb-real obj/*.o tp/*.o >/dev/null 2>&1 || rm -f nb-real
  ld -r -o nb0.o obj/*.o >"$log" 2>&1 || fail "ld -r"
  objcopy --redefine-syms="$H/redefine.syms" \
    --rename-section .data=nbdata --rename-section .bss=nbbss nb0.o nb1.o >"$log" 2>&1 || fail objcopy
  objcopy --keep-global-symbol=nb_main nb1.o nb.o >"$log" 2>&1 || fail objcopy
  "$CXX" -no-pie -o mc "$H"/*.o nb.o tp/*.o -lpthread >"$log" 2>&1 || fail link
  nm -u nb.o | awk '{print $2}' | grep -v '^mc_' >undef.txt
  # the same with every region allocation made separately, to detect accesses beyond any of them
  mkdir fobj; cp obj/*.o fobj/
  ( cd "$REPO" && find third-party/CRegion -name '*.c' | xargs -I{} sh -c 'f={}; o=$(echo "$f" | tr / _ | sed "s/\.c$/.o/")
    '"$CC $FL"' -DCREGION_ALWAYS_FRESH_MALLOC -Isrc -Ithird-party -c "$f" -o "'"$N"'/fobj/$o"' ) >"$log" 2>&1 || fail "CRegion"
  ld -r -o nb0.o fobj/*.o >"$log" 2>&1 || fail "ld -r"
  objcopy --redefine-syms="$H/redefine.syms" \
    --rename-section .data=nbdata --rename-section .bss=nbbss nb0.o nb1.o >"$log" 2>&1 || fail objcopy
  objcopy --keep-global-symbol=nb_main nb1.o nbf.o >"$log" 2>&1 || fail objcopy
  "$CXX" -no-pie -o mcf "$H"/*.o nbf.o tp/*.o -lpthread >"$log" 2>&1 || fail link
  rm -rf obj tp fobj nb0.o nb1.o
  touch ok
fi
# keep the cache small
ls -dt "$B"/nb-* 2>/dev/null | tail -n +7 | xargs -r rm -rf
ls -dt "$B"/h-* 2>/dev/null | tail -n +4 | xargs -r rm -rf
echo "$N/mc"
