package main

// When the checkpoint cannot be written, no SCT is given out and the log stops.
func demo(t *T) {
	w := NewWorld(WorldOpt{})
	defer w.Close()
	in, err := w.BootWith(func(op *Op) Action {
		if op.Method == "PUT" && op.Key == "checkpoint" {
			if _, ok := w.Store.Get("tile/0/000.p/1"); ok {
				return Action{Status: 403, Drop: true}
			}
		}
		return Action{}
	}, nil)
	must(err)
	rng := newRand(1)
	s := w.PKI.Random(rng)
	if _, r := in.Client(t, s, nil, nil); r.Code == 200 {
		t.fail("an SCT although the checkpoint could not be written")
	}
}
