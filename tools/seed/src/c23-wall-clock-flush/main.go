package main

import (
	"sync"
	"time"
)

// Submissions that come steadily are answered with SCTs also after the wall clock was set back.
func demo(t *T) {
	w := NewWorld(WorldOpt{FlushMs: 300})
	defer w.Close()
	time.ZZSetWall(30 * time.Minute)
	in, err := w.Boot()
	must(err)
	rng := newRand(1)
	var wg sync.WaitGroup
	for i := 0; i < 120; i++ {
		if i == 20 {
			time.ZZSetWall(0)
		}
		s := w.PKI.Small(rng)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if sct, r := in.Client(t, s, nil, nil); sct == nil {
				t.fail("submission %d: %v", i, r)
			}
		}()
		time.Sleep(60 * time.Millisecond)
	}
	wg.Wait()
}
