#!/bin/bash
# build.sh OUT [go build flags]: builds the harness from the tree $REPO (default /repo), overlaid with harness/zzverif
# (and the overlay entries in the file $OVERLAY, if set).
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
R=${REPO:-/repo}
OUT=${1:?usage: build.sh OUT [flags]}; shift
OV=$(mktemp) || exit 3
trap 'rm -f "$OV"' EXIT
python3 - "$VERIF_DIR/harness/zzverif" "$R" "$OVERLAY" > "$OV" <<'E' || exit 3
import json, os, sys
d, r, more = sys.argv[1:]
o = {r + "/cmd/zzverif/" + f: os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".go")}
if more: o.update(json.load(open(more)))
print(json.dumps({"Replace": o}))
E
cd "$R" && go build -overlay "$OV" "$@" -o "$OUT" ./cmd/zzverif
