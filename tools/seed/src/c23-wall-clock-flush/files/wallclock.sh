#!/bin/bash
# wallclock.sh DIR: writes overlay entries into DIR/wall.json which let the harness step the wall clock of the process
# (time.Now is adjusted by an offset, timers and the monotonic clock are left alone).
D=${1:?usage: wallclock.sh DIR}; mkdir -p "$D"
. /opt/vp/env.sh
T=$(go env GOROOT)/src/time
cat > "$D/zz_wall.go.txt" <<'G'
package time

import "sync/atomic"

var zzWall atomic.Int64

func zzAdjust(sec int64, nsec int32) (int64, int32) {
	d := zzWall.Load()
	if d == 0 {
		return sec, nsec
	}
	n := sec*1e9 + int64(nsec) + d
	return n / 1e9, int32(n % 1e9)
}

// ZZSetWall sets how far the wall clock is off from now on.
func ZZSetWall(d Duration) { zzWall.Store(int64(d)) }
G
python3 - "$T" "$D" <<'P'
import json, sys
t, d = sys.argv[1:]
s = open(t + "/time.go").read()
o = "\tsec, nsec, mono := now()\n\tmono -= startNano\n"
if s.count(o) != 1: sys.exit("unknown time.Now")
open(d + "/time.go.txt", "w").write(s.replace(o, "\tsec, nsec, mono := now()\n\tsec, nsec = zzAdjust(sec, nsec)\n\tmono -= startNano\n"))
json.dump({t + "/time.go": d + "/time.go.txt", t + "/zz_wall.go": d + "/zz_wall.go.txt"}, open(d + "/wall.json", "w"))
P
