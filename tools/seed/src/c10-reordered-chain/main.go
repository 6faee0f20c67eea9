package main

// A chain whose certificates are not in order is refused.
func demo(t *T) {
	w := NewWorld(WorldOpt{Open: true})
	defer w.Close()
	in, err := w.Boot()
	must(err)
	rng := newRand(1)
	ca := w.PKI.Ints[0]
	for i := 0; i < 3; i++ {
		ca = w.PKI.NewCA(ca, caOpt{})
		s := w.PKI.Issue(ca, leafOpt{rng: rng, pre: i%2 == 0})
		if r := in.Submit(s); r.Code != 200 {
			t.fail("chain in order: %v", r)
		}
		s = w.PKI.Issue(ca, leafOpt{rng: rng, pre: i%2 == 0})
		c := append([][]byte{}, s.Full...)
		for a, b := 1, len(c)-1; a < b; a, b = a+1, b-1 {
			c[a], c[b] = c[b], c[a]
		}
		s.Chain = c
		if r := in.Submit(s); r.Code < 400 || r.Code > 499 {
			t.fail("chain of %d with the root second: %v", len(c), r)
		}
	}
}
