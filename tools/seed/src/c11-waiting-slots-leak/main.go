package main

import (
	"sync"
	"sync/atomic"
	"time"
)

// After a stall during which many submissions time out, the log must serve again.
func demo(t *T) {
	w := NewWorld(WorldOpt{NoAudit: true})
	defer w.Close()
	var stalled atomic.Bool
	stalled.Store(true)
	in, err := w.BootWith(func(op *Op) Action {
		for op.Method == "PUT" && stalled.Load() {
			time.Sleep(10 * time.Millisecond)
		}
		return Action{}
	}, nil)
	must(err)
	rng := newRand(1)
	subs := make([]*Sub, 1500)
	for i := range subs {
		subs[i] = w.PKI.Small(rng)
	}
	var wg sync.WaitGroup
	for _, s := range subs {
		wg.Add(1)
		go func() { defer wg.Done(); in.Submit(s) }()
	}
	wg.Wait()
	stalled.Store(false)
	deadline := time.Now().Add(60 * time.Second)
	for {
		r := in.Submit(w.PKI.Small(rng))
		if r.Code == 200 {
			return
		}
		if time.Now().After(deadline) {
			t.fail("a minute after storage recovered, submissions are answered %v", r)
			return
		}
		time.Sleep(200 * time.Millisecond)
	}
}
