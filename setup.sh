#!/bin/bash
# Builds every harness once from /repo's working tree (checks rebuild what they need themselves).
set -u
cd "$(dirname "$0")" || exit 1
export CC=/usr/bin/gcc CXX=/usr/bin/g++ LC_ALL=C.UTF-8
unset MAKEFLAGS CXXFLAGS CFLAGS CPPFLAGS LDFLAGS
mkdir -p build evidence
if [ ! -f build/build.ninja ]; then
  cmake -S harness -B build -G Ninja -DEKF_CAL_DIR=/repo -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS="-O1 -g1" -DVERIF_SAN=OFF > build/cmake.log 2>&1 || { cat build/cmake.log; exit 1; }
fi
ninja -C build -j8 > build/ninja.log 2>&1 || { tail -n 60 build/ninja.log; exit 1; }
