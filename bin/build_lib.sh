#!/bin/bash
# build_lib.sh VARIANT
# Builds libsrcml (static) from /repo's working tree, with /repo's own CMake files, in
# /verif/.build/VARIANT.  Nothing is written in /repo.
#   plain : -O1 -g          asan : -O1 -g -fsanitize=address,undefined(subset)
set -u -o pipefail
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 LC_ALL=C.UTF-8 CC=gcc CXX=g++
V=${1:?variant}
HERE=$(cd "$(dirname "$0")/.." && pwd)
B=$HERE/.build/$V
case $V in
  plain) F="-O1 -g" ;;
  asan)  F="-O1 -g -fno-omit-frame-pointer -fsanitize=address" ;;
  *) echo "unknown variant $V" >&2; exit 2 ;;
esac
mkdir -p "$B/external"
# Not the real CLI11/CTPL: they keep src/client/CMakeLists.txt from downloading.
for h in CLI11.hpp ctpl_stl.h; do
  [ -s "$B/external/$h" ] || echo "#error $h is not available in this sandbox" > "$B/external/$h"
done
cmake -S /repo -B "$B" -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo \
  "-DCMAKE_CXX_FLAGS=-include algorithm -Wno-error -w" -DCMAKE_C_FLAGS=-w \
  "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=$F" "-DCMAKE_C_FLAGS_RELWITHDEBINFO=$F" \
  -DBUILD_TESTING=OFF -DBUILD_CLIENT_TESTS=OFF -DBUILD_LIBSRCML_TESTS=OFF -DBUILD_PARSER_TESTS=OFF \
  -DBUILD_EXAMPLES=OFF -DBUILD_CLIENT_DOC=OFF > "$B/configure.log" 2>&1 || { tail -30 "$B/configure.log"; exit 2; }
ninja -C "$B" libsrcml_static > "$B/ninja.log" 2>&1 || { tail -40 "$B/ninja.log"; exit 2; }
# the project's archive step strips symbols; keep an unstripped archive of the same objects
rm -f "$B/libsrcml_v.a"
find "$B/src" -path '*/CMakeFiles/*' -name '*.o' -not -path '*/client/*' | sort | xargs ar rcs "$B/libsrcml_v.a" || exit 2
