package main

import (
	"strings"
)

// The batch that completes a tile is lost in a crash before its head is published; the log must continue correctly.
func demo(t *T) {
	w := NewWorld(WorldOpt{})
	defer w.Close()
	rng := newRand(1)
	w.Prefill(rng, 254)
	in, err := w.BootWith(func(op *Op) Action {
		if op.Method == "PUT" && op.Key == "ct/v1/get-sth" && w.Store.PutCount() > 0 {
			for _, k := range w.Store.Keys("tile/") {
				if k == "tile/0/000" { // the crash
					return Action{Status: 403, Drop: true}
				}
			}
		}
		return Action{}
	}, nil)
	must(err)
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		s := w.PKI.Random(rng)
		w.Aud.Register(s)
		go func() { in.Submit(s); done <- true }()
	}
	<-done
	<-done
	in.Kill()
	if _, ok := w.Get("tile/data/000"); !ok {
		panic("harness: the batch did not complete the tile")
	}
	in, err = w.Boot()
	if err != nil {
		t.fail("no restart: %v", err)
		return
	}
	for i := 0; i < 4; i++ {
		in.MustClient(t, w.PKI.Random(rng), nil, nil)
	}
	for _, f := range w.Aud.Findings() {
		if !strings.HasPrefix(f.Cat, "x") {
			t.fail("%s", f)
		}
	}
}
