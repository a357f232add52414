#!/bin/bash
# Builds the framework from the committed files.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_harness && build_tool && "$BIN" selfcheck
