package main

import "time"

// With slow storage, every submission is still answered with an SCT.
func demo(t *T) {
	w := NewWorld(WorldOpt{FlushMs: 10})
	defer w.Close()
	in, err := w.BootWith(func(op *Op) Action {
		if op.Method == "PUT" && op.Key == "checkpoint" {
			return Action{Delay: 150 * time.Millisecond}
		}
		return Action{}
	}, nil)
	must(err)
	rng := newRand(1)
	for i := 0; i < 8; i++ {
		if sct, r := in.Client(t, w.PKI.Small(rng), nil, nil); sct == nil {
			t.fail("submission %d answered %v", i, r)
			return
		}
	}
}
