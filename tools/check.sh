#!/bin/bash
# check.sh PROPERTY TARGET [ARGS...]: builds TARGET from /repo's working tree and runs it.
# The build directory is keyed by the content of everything compiled, so that a stale object is never used.
set -u
ID=$1; TARGET=$2; shift 2
ROOT=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
case $TARGET in mt_*) FLAVOR=${VERIF_FLAVOR:-mc};; *) FLAVOR=${VERIF_FLAVOR:-plain};; esac
export VERIF_ROOT=$ROOT
export PYTHONDONTWRITEBYTECODE=1
key=$( { cd "$REPO" && find . \( -path ./.git -o -path ./_build \) -prune -o -type f \( -name '*.cpp' -o -name '*.hpp' -o -name '*.h' -o -name '*.msg' -o -name '*.srv' -o -name '*.yaml' -o -name '*.xml' \) -print0 | sort -z | xargs -0 sha1sum
  cd "$ROOT" && find stubs tools harness CMakeLists.txt -type f -print0 | sort -z | xargs -0 sha1sum; } | sha1sum | cut -c1-16 )
B=${VERIF_BUILD:-$ROOT/build/$FLAVOR-$key}
mkdir -p "$B" || exit 2
log=$B/$TARGET.log
if ! { cmake -S "$ROOT" -B "$B" -G Ninja -DREPO="$REPO" -DFLAVOR="$FLAVOR" && ninja -C "$B" "$TARGET"; } > "$log" 2>&1; then
  tail -40 "$log" >&2
  echo "check.sh: build of $TARGET failed" >&2
  exit 2
fi
if [ "$TARGET" = all ]; then exit 0; fi
exec "$B/$TARGET" "$@" 2>"$B/$TARGET.err"
