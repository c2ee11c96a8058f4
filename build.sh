#!/bin/bash
# Builds the simulator and every translation unit of /repo/src from the current
# working tree.  Output: $OUT/qbsim (default /verif/.build/qbsim).
# Objects are cached by the hash of what they were compiled from.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${QBSIM_REPO:-/repo}"
OUT="${QBSIM_BUILD:-$HERE/.build${QBSIM_SAN:+-san}}"
mkdir -p "$OUT/obj" || exit 2
exec 9>"$OUT/lock"; flock 9
CXX="${CXX:-g++}"
CK="${QBSIM_CFLAGS:-}"
SAN=""
if [ -n "${QBSIM_SAN:-}" ]; then
  # the code under test (not the simulator) with every access checked
  SAN="-fsanitize=address,undefined -fno-sanitize=vptr,alignment,null -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"
  CKL="-fsanitize=address,undefined"
fi
QFLAGS="-std=c++11 -O1 -g1 -w -DBOOST_FILESYSTEM_NO_DEPRECATED -idirafter $HERE/shim -include boost/core/invoke_swap.hpp $CK $SAN"
SFLAGS="-std=c++14 -O1 -g1 -w $CK"
cxxv="$($CXX --version | head -1)"
# Every header of the project is a possible dependency of every unit.
hq="$( (echo "$cxxv $QFLAGS"; cd "$REPO/src" && find . -name '*.hpp' -o -name '*.h' -o -name '*.ipp' | LC_ALL=C sort | xargs sha1sum) | sha1sum | cut -c1-20)"
hs="$( (echo "$cxxv $SFLAGS"; cd "$HERE/sim" && cat *.hpp) | sha1sum | cut -c1-20)"
jobs_list=(); objs=()
for f in $(cd "$REPO/src" && ls *.cpp | LC_ALL=C sort); do
  k="$( (echo "$hq $f"; cat "$REPO/src/$f") | sha1sum | cut -c1-20)"
  o="$OUT/obj/q_${f%.cpp}_$k.o"; objs+=("$o"); touch -c "$o"
  d=""; [ "$f" = quickbook.cpp ] && d="-Dmain=quickbook_main"
  [ -f "$o" ] || jobs_list+=("$CXX $QFLAGS $d -I$REPO/src -c $REPO/src/$f -o $o.tmp.$$ && mv $o.tmp.$$ $o")
done
for f in $(cd "$HERE/sim" && ls *.cpp | LC_ALL=C sort); do
  x=""; [ -f "$HERE/sim/${f%.cpp}.uses_repo" ] && x="-I$REPO/src -DBOOST_FILESYSTEM_NO_DEPRECATED -idirafter $HERE/shim -include boost/core/invoke_swap.hpp"
  kx=""; [ -n "$x" ] && kx="$hq"
  k="$( (echo "$hs $kx $f"; cat "$HERE/sim/$f") | sha1sum | cut -c1-20)"
  o="$OUT/obj/s_${f%.cpp}_$k.o"; objs+=("$o"); touch -c "$o"
  [ -f "$o" ] || jobs_list+=("$CXX $SFLAGS $x -c $HERE/sim/$f -o $o.tmp.$$ && mv $o.tmp.$$ $o")
done
if [ ${#jobs_list[@]} -gt 0 ]; then
  printf '%s\n' "${jobs_list[@]}" | xargs -P "${QBSIM_JOBS:-8}" -d '\n' -I{} bash -c '{} || exit 255' || { echo "build failed" >&2; exit 2; }
fi
key="$(printf '%s\n' "${objs[@]}" | sha1sum | cut -c1-20)"
if [ "$(cat "$OUT/key" 2>/dev/null)" != "$key" ] || [ ! -x "$OUT/qbsim" ]; then
  $CXX $CK ${CKL:-} -rdynamic "${objs[@]}" -o "$OUT/qbsim.tmp" -lboost_program_options -lboost_filesystem -ldl -lpthread || exit 2
  mv "$OUT/qbsim.tmp" "$OUT/qbsim"; echo "$key" > "$OUT/key"
fi
# keep the cache small
find "$OUT/obj" -name '*.o' -mmin +600 -delete 2>/dev/null
exit 0
