package main

import "sync"

// Concurrent submissions must not race; this is built with the race detector.
func demo(t *T) {
	rng := newRand(1)
	for k := 0; k < 4; k++ {
		w := NewWorld(WorldOpt{})
		in, err := w.Boot()
		must(err)
		var subs []*Sub
		for i := 0; i < 16; i++ {
			subs = append(subs, w.PKI.Small(rng))
		}
		var wg sync.WaitGroup
		for _, s := range subs {
			wg.Add(1)
			go func() { defer wg.Done(); in.Submit(s) }()
		}
		wg.Wait()
		w.Close()
	}
}
