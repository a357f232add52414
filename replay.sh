#!/bin/bash
# replay.sh <file>: re-executes one recorded case against /repo's working tree.
F=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_harness || exit 2
grep -q '"C28"' "$F" && { build_tool || exit 2; }
grep -q '"build": "release"' "$F" && BIN=$VERIF_REL_BIN
exec "$BIN" replay "$F"
