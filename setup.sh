#!/bin/bash
# Builds the harness once from the committed files, as a check of the toolchain; every check rebuilds it itself.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
bash build.sh "$W/vh" || exit 1
echo "setup done"
