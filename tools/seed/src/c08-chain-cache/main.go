package main

// get-entries must serve the submitted chain of each entry, also with cross-signed issuers.
func demo(t *T) {
	w := NewWorld(WorldOpt{})
	defer w.Close()
	p := w.PKI
	rng := newRand(1)
	// mid is certified by two roots, and certifies sub
	mid1 := p.NewCA(p.Roots[0], caOpt{cn: "mid"})
	mid2 := p.cross(mid1, p.Roots[1])
	sub1 := p.NewCA(mid1, caOpt{cn: "sub"})
	sub2 := *sub1
	sub2.Up = mid2
	in, err := w.Boot()
	must(err)
	for i := 0; i < 6; i++ {
		ca := sub1
		if i%2 == 1 {
			ca = &sub2
		}
		if sct, r := in.MustClient(t, p.Issue(ca, leafOpt{pre: i%3 == 0, rng: rng}), nil, nil); sct == nil {
			t.fail("submission: %v", r)
			return
		}
	}
	h, _ := w.Monitor()
	m := &MonClient{H: h}
	if err := m.CheckEntries(w, 0, 5, 6); err != nil {
		t.fail("get-entries: %v", err)
	}
}
