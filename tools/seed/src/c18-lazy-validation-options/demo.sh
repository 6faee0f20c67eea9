#!/bin/bash
# Runs the demonstration beside this file against the tree in the current directory: 0 if the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
repo=$PWD
{
  printf '{"Replace":{'
  sep=
  for f in "$here"/demo/*.go; do
    printf '%s"%s/cmd/zzdemo/%s":"%s"' "$sep" "$repo" "$(basename "$f")" "$f"
    sep=,
  done
  printf '}}'
} > "$tmp/overlay.json"
go build -race -overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/zzdemo || exit 3
TMPDIR="$tmp" timeout 200 "$tmp/demo" > "$tmp/out" 2>&1
rc=$?
grep -E '^(DEMO:|the property|panic:|fatal error:|WARNING: DATA RACE)' "$tmp/out" | cut -c1-400 | tail -20
[ $rc -gt 1 ] && tail -c 1500 "$tmp/out"
exit $rc
