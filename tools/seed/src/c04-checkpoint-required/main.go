package main

// A log that crashed after the first tree head with entries, before its first checkpoint, starts again.
func demo(t *T) {
	rng := newRand(1)
	for try := 0; try < 20; try++ {
		w := NewWorld(WorldOpt{FlushMs: 700})
		defer w.Close()
		in, err := w.BootWith(func(op *Op) Action {
			if op.Method == "PUT" && op.Key == "checkpoint" { // the crash
				return Action{Status: 403, Drop: true}
			}
			return Action{}
		}, nil)
		must(err)
		s := w.PKI.Random(rng)
		w.Aud.Register(s)
		in.Submit(s)
		in.Kill()
		if w.Aud.Size() == 0 {
			continue // there was an idle flush before
		}
		in, err = w.Boot()
		if err != nil {
			t.fail("no restart at size %d: %v", w.Aud.Size(), err)
			return
		}
		for i := 0; i < 4; i++ {
			in.MustClient(t, w.PKI.Random(rng), nil, nil)
		}
		return
	}
	panic("harness: no crash at the first batch")
}
