#!/bin/bash
# build.sh OUTDIR [EXTRA_FLAGS...]: compiles /repo's current sources and the driver into OUTDIR (outside /repo).
# SCHED=1: the library in its thread-safe configuration, with every access of shared memory a scheduling point (sched.cc).
set -e
out=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
src=$repo/src
mkdir -p "$out/obj"
lib="" ; link="" ; extra="" ; def=""
if [ -n "$SCHED" ]; then
  rm -rf "$out/src"; cp -r "$src" "$out/src"; src=$out/src
  sed -i -E 's/^([[:space:]]*#[[:space:]]*define[[:space:]]+SLALIB_THREAD_SAFE)[[:space:]]+[0-9]+/\1 1/' "$src/slalib.h"
  lib="-O0 -fsanitize=thread"; def="-DSCHED"; extra="$out/obj/_sched.o"
  link="-pthread -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock"
fi
{
  echo "CXXFLAGS := -std=c++17 -O2 -g0 -w -I$src $*"
  objs=
  for f in "$src"/*.cc; do
    b=$(basename "$f" .cc); objs="$objs $out/obj/$b.o"
    echo "$out/obj/$b.o: $f $src/slalib.h $src/f77_utils.h"; printf '\tg++ $(CXXFLAGS) %s -c %s -o $@\n' "$lib" "$f"
  done
  echo "$out/obj/_sched.o: $here/sched.cc"; printf '\tg++ $(CXXFLAGS) -c %s -o $@\n' "$here/sched.cc"
  echo "$out/obj/_driver.o: $here/driver.cc $src/slalib.h"; printf '\tg++ $(CXXFLAGS) -O1 %s -c %s -o $@\n' "$def" "$here/driver.cc"
  echo "$out/driver: $out/obj/_driver.o $objs $extra"; printf '\tg++ $(CXXFLAGS) $^ %s -o $@\n' "$link"
  echo "all: $out/driver"
} > "$out/Makefile"
make -s -j8 -f "$out/Makefile" all
