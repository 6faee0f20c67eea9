package main

import (
	"sync/atomic"
	"time"
)

// After a stall that lets a submission time out, the log must serve again.
func demo(t *T) {
	w := NewWorld(WorldOpt{NoAudit: true})
	defer w.Close()
	var stalled atomic.Bool
	stalled.Store(true)
	in, err := w.BootWith(func(op *Op) Action {
		for op.Method == "PUT" && stalled.Load() {
			time.Sleep(10 * time.Millisecond)
		}
		return Action{}
	}, nil)
	must(err)
	rng := newRand(1)
	in.Submit(w.PKI.Small(rng))
	stalled.Store(false)
	deadline := time.Now().Add(40 * time.Second)
	for {
		r := in.Submit(w.PKI.Small(rng))
		if r.Code == 200 {
			return
		}
		if time.Now().After(deadline) {
			t.fail("long after storage recovered, submissions are answered %v", r)
			return
		}
	}
}
