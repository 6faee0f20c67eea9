package main

import (
	"bytes"
	"sync"
)

// The index files are sorted, however many entries of a batch they get.
func demo(t *T) {
	w := NewWorld(WorldOpt{Mask: 1, FlushMs: 300})
	defer w.Close()
	in, err := w.Boot()
	must(err)
	rng := newRand(1)
	var subs []*Sub
	for i := 0; i < 80; i++ {
		subs = append(subs, w.PKI.Small(rng))
	}
	var wg sync.WaitGroup
	for _, s := range subs {
		wg.Add(1)
		go func() { defer wg.Done(); in.MustClient(t, s, nil, nil) }()
	}
	wg.Wait()
	n := 0
	for _, k := range w.Store.Keys("int/hashes/") {
		d, _ := w.Get(k)
		for i := 21; i+21 <= len(d); i += 21 {
			n++
			if bytes.Compare(d[i-21:i-5], d[i:i+16]) > 0 {
				t.fail("%s is not sorted", k)
				break
			}
		}
	}
	if n == 0 {
		panic("harness: no shared index files")
	}
}
