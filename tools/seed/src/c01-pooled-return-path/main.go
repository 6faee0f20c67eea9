package main

import (
	"runtime/debug"
	"sync"
	"time"
)

// Submissions that were given up while storage stalled must not disturb the answers of later ones.
func demo(t *T) {
	debug.SetGCPercent(2000)
	w := NewWorld(WorldOpt{FlushMs: 5})
	defer w.Close()
	in, err := w.Boot()
	must(err)
	rng := newRand(1)
	release := make(chan struct{})
	in.GW.SetPolicy(func(op *Op) Action {
		if op.Method == "PUT" {
			return Action{Wait: release}
		}
		return Action{}
	})
	wave := func(n int) {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			s := w.PKI.Small(rng)
			w.Aud.Register(s)
			wg.Add(1)
			go func() {
				defer wg.Done()
				in.Client(t, s, nil, nil)
			}()
		}
		wg.Wait()
	}
	wave(64)
	in.GW.SetPolicy(nil)
	close(release)
	time.Sleep(300 * time.Millisecond)
	for i := 0; i < 6; i++ {
		wave(64)
	}
}

