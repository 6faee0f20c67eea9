#!/bin/bash
# mkseed.sh ID SRC: makes /verif/seeded/ID from SRC/{edit.py,meta.json,main.go[,nolib]} after confirming that the change
# builds, passes the existing tests, and that the demonstration tells the two trees apart.
set -u
id=$1; src=$2
v=$(cd "$(dirname "$0")/../.." && pwd)
out=$v/seeded/$id
w=/tmp/seedrepo-$id
rm -rf "/tmp/seedrepo-$id"; cp -a /repo "$w"
trap 'rm -rf "/tmp/seedrepo-$id"' EXIT
rm -rf "$v/seeded/$id"; mkdir -p "$out/demo"
cp "$src/meta.json" "$out/"; cp "$v/tools/seed/demo.sh" "$out/"
cp "$src"/*.go "$out/demo/"
[ -f "$src/demo.sh" ] && cp "$src/demo.sh" "$out/"
[ -d "$src/files" ] && cp -r "$src/files" "$out/"
if [ ! -f "$src/nolib" ]; then
  for f in store consul pki ref world audit sched monclient; do cp "$v/harness/zzverif/$f.go" "$out/demo/"; done
  cp "$v/tools/seed/t.go" "$out/demo/"
fi
(cd "$w" && bash "$out/demo.sh" > /tmp/seed-$id.clean 2>&1); rc=$?
[ $rc = 0 ] || { echo "$id: DEMO FAILS ON CLEAN ($rc)"; tail -5 /tmp/seed-$id.clean; exit 1; }
(cd "$w" && python3 "$src/edit.py") || { echo "$id: EDIT FAILED"; exit 1; }
(cd "$w" && git diff > "$out/patch.diff")
[ -s "$out/patch.diff" ] || { echo "$id: EMPTY"; exit 1; }
# lines the change removes must be of the original repository
git -C "$w" diff --unified=0 | python3 -c '
import sys,re,subprocess
f=None; n=bad=0
for l in sys.stdin:
    if l.startswith("--- a/"): f=l[6:].strip()
    m=re.match(r"@@ -(\d+)(?:,(\d+))?",l)
    if m and f:
        a=int(m[1]); c=int(m[2]) if m[2] else 1
        if c:
            b=subprocess.run(["git","-C",sys.argv[1],"blame","-l","-s","-L",f"{a},{a+c-1}","HEAD","--",f],capture_output=True,text=True).stdout
            new=set(subprocess.run(["git","-C",sys.argv[1],"rev-list","cf2a0e4..HEAD"],capture_output=True,text=True).stdout.split())
            for x in b.splitlines():
                n+=1
                if x.split()[0] in new: bad+=1; print("  FIX LINE:",x[:150])
print(f"  {n} original lines removed, {bad} of them from fix commits")
' "$w"
. /opt/vp/env.sh
gofmt -l $(git -C "$w" diff --name-only | sed "s,^,$w/,") 
(cd "$w" && go build ./... && go vet $(git diff --name-only | xargs -n1 dirname | sort -u | sed 's,^,./,') 2>&1 | tail -3) || { echo "$id: BUILD FAILED"; exit 1; }
(cd "$w" && go test ./internal/... 2>&1 | grep -E "^(FAIL|---|panic)" | head -5)
(cd "$w" && bash "$out/demo.sh" > /tmp/seed-$id.bad 2>&1); rc=$?
[ $rc != 0 ] || { echo "$id: DEMO DOES NOT NOTICE"; cat /tmp/seed-$id.bad; exit 1; }
echo "$id: ok, demo exit $rc: $(grep -m1 -E 'DEMO|panic' /tmp/seed-$id.bad | cut -c1-200)"
