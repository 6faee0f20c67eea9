package main

import "bytes"

// Every resubmission gets the same SCT, with many certificates per index file.
func demo(t *T) {
	w := NewWorld(WorldOpt{Mask: 1})
	defer w.Close()
	in, err := w.Boot()
	must(err)
	rng := newRand(1)
	var subs []*Sub
	for i := 0; i < 60; i++ {
		subs = append(subs, w.PKI.Small(rng))
	}
	var led Ledger
	done := make(chan bool)
	for _, s := range subs {
		go func() { in.MustClient(t, s, &led, nil); done <- true }()
	}
	for range subs {
		<-done
	}
	for _, p := range led.All() {
		sct, r := in.MustClient(t, p.Sub, nil, nil)
		if sct == nil {
			t.fail("resubmission answered %v", r)
		} else if sct.Index != p.SCT.Index || !bytes.Equal(sct.Raw, p.SCT.Raw) {
			t.fail("submission %d was logged at %d, and again at %d", p.Sub.ID, p.SCT.Index, sct.Index)
		}
	}
}
