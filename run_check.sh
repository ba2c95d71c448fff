#!/bin/bash
# Usage: run_check.sh <property id>   (VERIF_SEED, VERIF_TIER from the environment)
# Builds the harness of the property from /repo's working tree and runs it.
# Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: could not build or run.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
export CC=/usr/bin/gcc CXX=/usr/bin/g++ LC_ALL=C.UTF-8
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset MAKEFLAGS CXXFLAGS CFLAGS CPPFLAGS LDFLAGS
bin=check_$(echo "$id" | tr A-Z a-z)
build() {  # directory, sanitizer switch, targets
  local B=$1 san=$2; shift 2
  mkdir -p "$B"
  (
    flock 9
    if [ ! -f "$B/build.ninja" ]; then
      cmake -S "$here/harness" -B "$B" -G Ninja -DEKF_CAL_DIR="${EKF_CAL_DIR:-/repo}" -DCMAKE_BUILD_TYPE= \
        -DCMAKE_CXX_FLAGS="-O1 -g1" -DVERIF_SAN=$san > "$B/cmake.log" 2>&1 || { cat "$B/cmake.log"; exit 2; }
    fi
    # Ninja goes by time stamps: start clean when a source changed without getting newer
    S=$B/sources.sha256
    if [ -f "$S" ]; then
      LC_ALL=C sha256sum -c --quiet "$S" 2>/dev/null | sed -n 's/: FAILED.*$//p' > "$B/changed"
      while read -r f; do
        if [ ! "$f" -nt "$S" ]; then ninja -C "$B" -t clean > /dev/null; break; fi
      done < "$B/changed"
    fi
    find "${EKF_CAL_DIR:-/repo}/src" "${EKF_CAL_DIR:-/repo}/CMakeLists.txt" "$here/harness" -type f ! -name '*.png' -print0 | sort -z |
      xargs -0 sha256sum > "$S"
    ninja -C "$B" -j8 "$@" > "$B/ninja.log" 2>&1 || { tail -n 60 "$B/ninja.log"; exit 2; }
  ) 9> "$B/lock"
}
B=${VERIF_BUILD:-$here/build}
export VERIF_SIM=$B/sim
export VERIF_KNOWN=$here/known_findings.txt
if [ -f "$here/harness/py/$bin.py" ]; then
  if grep -q 'NEEDS_SIM' "$here/harness/py/$bin.py"; then
    build "$B" OFF sim || { echo "build failed"; exit 2; }
  fi
  export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
  exec python3-vt "$here/harness/py/$bin.py" --property "$id" --replay-dir "$here/replays" \
    --evidence-dir "$here/evidence" "$@"
fi
targets=$bin
grep -q 'NEEDS_SIM' "$here/harness/$bin.cpp" && targets="$targets sim"
build "$B" OFF $targets || { echo "build failed"; exit 2; }
# Memory from malloc is filled, so that a read of uninitialised memory shows
export MALLOC_PERTURB_=165
"$B/$bin" --property "$id" --replay-dir "$here/replays" --evidence-dir "$here/evidence" "$@"
