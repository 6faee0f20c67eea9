package main

import "time"

// An SCT must not be given out before the checkpoint covers it.
func demo(t *T) {
	w := NewWorld(WorldOpt{})
	defer w.Close()
	in, err := w.BootWith(func(op *Op) Action {
		if op.Method == "PUT" && op.Key == "checkpoint" {
			return Action{Delay: 700 * time.Millisecond}
		}
		return Action{}
	}, nil)
	must(err)
	rng := newRand(1)
	for i := 0; i < 3; i++ {
		in.MustClient(t, w.PKI.Random(rng), nil, nil)
	}
}
