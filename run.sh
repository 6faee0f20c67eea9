#!/bin/bash
# bash /verif/run.sh <property>: builds the harness from /repo's working tree and decides one property.
VERIF_DIR=$(cd "$(dirname "$0")" && pwd); export VERIF_DIR
ID=${1:?usage: run.sh PROPERTY}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
. /opt/vp/env.sh
WORK=$(mktemp -d "${TMPDIR:-/tmp}/vrun-$ID-XXXXXX") || exit 3
trap 'rm -rf "$WORK"' EXIT
R=${REPO:-/repo}
FLAGS=()
case "$ID" in
  C02|C06|C23) # without a clock that can be stepped, the rest of the check still decides
       FLAGS=(-tags wallclock); export OVERLAY="$WORK/wall/wall.json"
       bash "$VERIF_DIR/wallclock.sh" "$WORK/wall" && bash "$VERIF_DIR/build.sh" "$WORK/vh" "${FLAGS[@]}" > /dev/null 2>&1 || { FLAGS=(); unset OVERLAY; } ;;
  C18) FLAGS=(-race) ;;
  C19) FLAGS=(-tags bucketapi)
       # without the functions this drives directly, the check still judges complete logs
       bash "$VERIF_DIR/build.sh" "$WORK/vh" "${FLAGS[@]}" > /dev/null 2>&1 || FLAGS=() ;;
  C20) FLAGS=(-tags verifedge -modfile "$WORK/go.mod")
       bash "$VERIF_DIR/stubs/edgesdk.sh" "$R" "$WORK/sdk" || { echo "cannot prepare the Fastly SDK stand-in"; exit 3; }
       cp "$R/go.mod" "$WORK/go.mod"; cp "$R/go.sum" "$WORK/go.sum"
       (cd "$R" && go mod edit -replace "github.com/fastly/compute-sdk-go=$WORK/sdk" "$WORK/go.mod") || exit 3 ;;
esac
case "$ID" in
  C07|C12) # the programs themselves; without them, the rest of the check still decides
       mkdir "$WORK/bin"; (cd "$R" && go build -o "$WORK/bin/" ./cmd/itko-submit ./cmd/itko-monitor) > /dev/null 2>&1 && export VERIF_BIN="$WORK/bin" ;;
esac
if ! bash "$VERIF_DIR/build.sh" "$WORK/vh" "${FLAGS[@]}" > "$WORK/build.log" 2>&1; then
  echo "BUILD FAILED"; tail -40 "$WORK/build.log"; exit 3
fi
TMPDIR="$WORK" "$WORK/vh" run "$ID"
