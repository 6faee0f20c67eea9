package main

// Proofs must be available for every published size, while the log grows.
func demo(t *T) {
	w := NewWorld(WorldOpt{})
	defer w.Close()
	in, err := w.Boot()
	must(err)
	h, _ := w.Monitor()
	m := &MonClient{H: h}
	rng := newRand(1)
	for i := uint64(0); i < 4; i++ {
		if sct, r := in.MustClient(t, w.PKI.Small(rng), nil, nil); sct == nil {
			t.fail("%v", r)
			return
		}
		if err := m.CheckProofByHash(w, i, i+1); err != nil {
			t.fail("proof of entry %d at size %d: %v", i, i+1, err)
		}
		if err := m.CheckConsistency(w, 1, i+1); err != nil {
			t.fail("consistency of sizes 1 and %d: %v", i+1, err)
		}
	}
}
