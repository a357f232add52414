#!/bin/bash
# check.sh <property> [quick|thorough]: rebuilds from /repo's working tree and explores the property.
# Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: the check could not run.
cd "$(dirname "$0")" || exit 2
. ./env.sh
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
build_harness || { echo "check $ID: /repo or the harness does not build"; exit 2; }
if [ "$ID" = C28 ]; then
    build_tool || { echo "check $ID: the sampling tool does not build"; exit 2; }
    unset VERIF_REL_BIN # the tool is run as built; the library is not involved
fi
exec "$BIN" run "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}"
