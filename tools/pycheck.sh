#!/bin/bash
# tools/pycheck.sh ID [options]: a check of the Python tools, run from /repo's working tree.
cd "$(dirname "$0")/.." || exit 2
export VERIF_ROOT=$PWD VERIF_REPO=${VERIF_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1
exec python3 -B py/spawn.py "$@"
