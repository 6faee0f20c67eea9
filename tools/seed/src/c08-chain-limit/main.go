package main

import "fmt"

// get-entries serves the whole chain of an entry, however long it is.
func demo(t *T) {
	w := NewWorld(WorldOpt{})
	defer w.Close()
	p := w.PKI
	rng := newRand(1)
	in, err := w.Boot()
	must(err)
	ca := p.Roots[0]
	for i := uint64(0); i < 11; i++ {
		sub := p.Issue(ca, leafOpt{pre: i%3 == 0, rng: rng})
		sct, r := in.MustClient(t, sub, nil, nil)
		if sct == nil {
			t.fail("chain with %d issuers: %v", i+1, r)
			return
		}
		h, _ := w.Monitor()
		a := call(h, "GET", fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", i, i), nil, 0)
		if err := sameServed(a.Body, sub.entryFor(sct.Timestamp, sct.Index), sub); err != nil {
			t.fail("chain with %d issuers: get-entries: %v", i+1, err)
		}
		ca = p.NewCA(ca, caOpt{})
	}
}
