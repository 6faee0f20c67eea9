package main

import (
	"encoding/json"
	"sync/atomic"
	"time"
)

// An instance dies while it publishes a batch, another one continues: published heads must never contradict each other.
func demo(t *T) {
	w := NewWorld(WorldOpt{FlushMs: 20})
	defer w.Close()
	var down atomic.Bool
	in, err := w.BootWith(func(op *Op) Action {
		if op.Method == "PUT" && op.Key == "ct/v1/get-sth" {
			var h struct {
				Size uint64 `json:"tree_size"`
			}
			json.Unmarshal(op.Data, &h)
			if h.Size > 0 {
				down.Store(true)
			}
		}
		if down.Load() {
			return Action{Status: 403, Drop: true}
		}
		return Action{}
	}, nil)
	must(err)
	rng := newRand(1)
	in.Client(t, w.PKI.Random(rng), nil, nil)
	for i := 0; i < 200 && !down.Load(); i++ {
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(100 * time.Millisecond)
	in.Kill()
	in, err = w.Boot()
	must(err)
	in.MustClient(t, w.PKI.Random(rng), nil, nil)
	for _, f := range w.Aud.Findings() {
		t.fail("%s", f)
	}
}
