//go:build !wallclock

package main

import "time"

const canStepClock = false

func setWallClock(off time.Duration) {}
