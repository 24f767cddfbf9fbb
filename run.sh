#!/bin/bash
# run.sh <property> [harness options]: build from /repo's current tree, then run the check.
V=$(cd "$(dirname "$0")" && pwd)
ID=$1; shift
B=${VBUILD:-$V/build}
mkdir -p "$B"
(
  flock 9
  python3 "$V/tools/sync.py" "${REPO:-/repo}" "$B/src" || exit 1
  make -s -f "$V/Makefile" V="$V" B="$B" REPO="$B/src" -j"$(nproc)" "$B/h_$ID"
) 9>"$B/.lock" >"$B/$ID.log" 2>&1 || { tail -40 "$B/$ID.log" >&2; echo "build failed for $ID" >&2; exit 3; }
export TYPELIB_PLUGIN_PATH=$B/plugins PBT_BUILD=$B
unset TYPELIB_RUBY_PLUGIN_PATH
cd "$V" && exec "$B/h_$ID" --verif "$V" "$@"
