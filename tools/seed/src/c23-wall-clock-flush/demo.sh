#!/bin/bash
# Runs the demonstration beside this file against the tree in the current directory: 0 if the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
repo=$PWD
{
  printf '{"Replace":{'
  sep=
  for f in "$here"/demo/*.go; do
    printf '%s"%s/cmd/zzdemo/%s":"%s"' "$sep" "$repo" "$(basename "$f")" "$f"
    sep=,
  done
  printf '}}'
} > "$tmp/overlay.json"
bash "$here/files/wallclock.sh" "$tmp/wall" && python3 - "$tmp/overlay.json" "$tmp/wall/wall.json" <<"P" || exit 3
import json, sys
a, b = (json.load(open(f)) for f in sys.argv[1:])
a["Replace"].update(b)
json.dump(a, open(sys.argv[1], "w"))
P
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/zzdemo || exit 3
TMPDIR="$tmp" timeout 200 "$tmp/demo" > "$tmp/out" 2>&1
rc=$?
grep -E '^(DEMO:|the property|panic:|fatal error:)' "$tmp/out" | cut -c1-400 | tail -20
[ $rc -gt 1 ] && tail -c 1500 "$tmp/out"
exit $rc
