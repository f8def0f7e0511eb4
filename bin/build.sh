#!/bin/bash
# build.sh SIM : build /repo's libraries (as they are now) and simulator SIM
# into $SIM_BUILD (default /verif/build).  Nothing is written to /repo.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${SIM_REPO:-/repo}
B=${SIM_BUILD:-$V/build}
SIM=$1
mkdir -p "$B"
cat > "$B/cc" <<'X'
#!/bin/sh
exec gcc "$@" -w -Wno-error -O1 -g1 -fno-omit-frame-pointer
X
chmod +x "$B/cc"
# make sure a stale configuration for another tree is not used
if [ -f "$B/repo.path" ] && [ "$(cat "$B/repo.path")" != "$REPO" ]; then
    find "$B/lib" -mindepth 1 -delete 2>/dev/null || true
fi
echo "$REPO" > "$B/repo.path"
if [ ! -f "$B/lib/build.ninja" ]; then
    CC="$B/cc" cmake -S "$REPO" -B "$B/lib" -G Ninja -DCMAKE_BUILD_TYPE=debug \
        -DBUILD_TESTS=yes -DBUILD_SERVER_CODE=yes -DPYTHON_3_CMD=/usr/bin/python3 > "$B/cmake.log" 2>&1 \
        || { cat "$B/cmake.log"; exit 1; }
fi
exec make -s --no-print-directory -j8 -f "$V/sim/$SIM/Makefile" V="$V" REPO="$REPO" B="$B"
