package main

import "sync"

// Issuers are stored before the head is, also when several certificates of one authority arrive together.
func demo(t *T) {
	w := NewWorld(WorldOpt{FlushMs: 400})
	defer w.Close()
	in, err := w.Boot()
	must(err)
	rng := newRand(1)
	a := w.PKI.Ints[0]
	b := w.PKI.cross(a, w.PKI.Roots[2])
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		s := w.PKI.Issue([]*CA{a, b}[i%2], leafOpt{rng: rng})
		wg.Add(1)
		go func() { defer wg.Done(); in.MustClient(t, s, nil, nil) }()
	}
	wg.Wait()
	for _, f := range w.Aud.Findings() {
		t.fail("%s", f)
	}
}
