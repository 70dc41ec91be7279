#!/bin/bash
# Builds the simulator (all of SMASH from /repo's working tree + /verif/sim) into /verif/build.
# The working tree is mirrored by content, so only what really differs is recompiled.
set -e
here=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$here/build}
export CC=/usr/bin/gcc CXX=/usr/bin/g++ LC_ALL=C.UTF-8
mkdir -p "$B"
exec 9>"$B/lock"; flock 9
rsync -rlcp --delete --exclude=/_build --exclude=/.git --exclude=/src/tests\
    --exclude=/containers --exclude=/examples --exclude=/3rdparty/virtest "$R/" "$B/src/"
if [ ! -f "$B/obj/build.ninja" ]; then
    cmake -S "$B/src" -B "$B/obj" -G Ninja -DCMAKE_BUILD_TYPE=Release -DBUILD_TESTING=OFF \
        -DCMAKE_CXX_FLAGS_RELEASE="-O1 -DNDEBUG" \
        -DCMAKE_PROJECT_SMASH_INCLUDE="$here/cmake/sim.cmake" -DVERIF_DIR="$here" \
        -DTRY_USE_ROOT=OFF -DTRY_USE_HEPMC=OFF -DTRY_USE_RIVET=OFF \
        -Dcheck_cxx_compiler_flag__march_native=OFF 
fi
ninja -C "$B/obj" simsmash
