//go:build wallclock

package main

import "time"

// The wall clock can be stepped: the time package is overlaid (see wallclock.sh).
const canStepClock = true

func setWallClock(off time.Duration) { time.ZZSetWall(off) }
