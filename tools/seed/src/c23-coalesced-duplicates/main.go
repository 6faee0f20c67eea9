package main

import "sync"

// Clients that submit the same certificate at the same time all get an SCT.
func demo(t *T) {
	w := NewWorld(WorldOpt{FlushMs: 300})
	defer w.Close()
	in, err := w.Boot()
	must(err)
	s := w.PKI.Issue(w.PKI.Ints[0], leafOpt{rng: newRand(1)})
	w.Aud.Register(s)
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if r := in.Submit(s); r.Code != 200 {
				t.fail("one of six simultaneous submissions of a certificate is answered %v", r)
			}
		}()
	}
	wg.Wait()
}
