#!/bin/bash
# check.sh ID [CHECK] [SEED]: runs a check against a planted bug, in a copy of /repo.
id=$1; v=$(cd "$(dirname "$0")/../.." && pwd)
c=${2:-$(python3 -c "import json;print(json.load(open('$v/seeded/$id/meta.json'))['property'])")}
w=/tmp/seedchk-$id
rm -rf "/tmp/seedchk-$id" "/tmp/seedvd-$id"; cp -a /repo "$w"; mkdir -p "/tmp/seedvd-$id"; cp "$v/known_findings.json" "/tmp/seedvd-$id/"
git -C "$w" apply "$v/seeded/$id/patch.diff" || exit 2
s=$(date +%s)
REPO=$w VERIF_SEED=${3:-1} timeout 900 bash "$v/run.sh" "$c" > "/tmp/seedchk-$id.out" 2>&1; rc=$?
echo "$id $c: exit $rc in $(($(date +%s)-s)) s: $(grep -m1 VIOLATION "/tmp/seedchk-$id.out" | cut -c1-200)"
rm -rf "/tmp/seedchk-$id"
