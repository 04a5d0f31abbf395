#!/bin/bash
# check.sh <property> [tier]: rebuilds the harness from /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" VERIF_SEED="${VERIF_SEED:-1}"
tier="${2:-${VERIF_TIER:-quick}}"
./build.sh || { echo "the harness does not build"; exit 2; }
if [ "$1" = C18 ]; then
    py/build_ext.sh || { echo "the Python extension does not build"; exit 2; }
    exec python3-vt -B py/c18.py "$tier"
fi
exec target/debug/vh check "$1" "$tier"
