package main

import (
	"strings"
	"time"
)

// A head must not be visible before the issuers of its entries are stored.
func demo(t *T) {
	w := NewWorld(WorldOpt{})
	defer w.Close()
	in, err := w.BootWith(func(op *Op) Action {
		if op.Method == "PUT" && strings.HasPrefix(op.Key, "issuer/") {
			return Action{Delay: 400 * time.Millisecond}
		}
		return Action{}
	}, nil)
	must(err)
	rng := newRand(1)
	for i := 0; i < 6; i++ {
		in.MustClient(t, w.PKI.Random(rng), nil, nil)
	}
	for _, f := range w.Aud.Findings() {
		t.fail("%s", f)
	}
}
