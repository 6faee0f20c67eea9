package main

// Chains to every accepted root are admitted, also if two roots share name and key identifier, or one was renewed.
func demo(t *T) {
	w := NewWorld(WorldOpt{})
	defer w.Close()
	in, err := w.Boot()
	must(err)
	rng := newRand(1)
	for i, ca := range w.PKI.Anchors {
		for k := 0; k < 2; k++ {
			s := w.PKI.Issue(ca, leafOpt{rng: rng, pre: k == 1})
			w.Aud.Register(s)
			if r := in.Submit(s); r.Code != 200 {
				t.fail("chain to accepted root %d: %v", i, r)
			}
		}
	}
}
