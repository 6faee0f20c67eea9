package main

import "strings"

// A log whose edge tiles don't match its tree head must not start.
func demo(t *T) {
	rng := newRand(1)
	for _, size := range []uint64{5, 700} {
		w := NewWorld(WorldOpt{NoAudit: true})
		w.Prefill(rng, size)
		for k := range w.Store.Snapshot() {
			if !strings.HasPrefix(k, "tile/") || strings.HasPrefix(k, "tile/data") || !strings.Contains(k, ".p/") {
				continue
			}
			d, _ := w.Get(k)
			bad := append([]byte{}, d...)
			bad[3] ^= 1
			w.put(k, bad)
			if _, err := w.Boot(); err == nil {
				t.fail("the log of size %d starts although %s is altered", size, k)
			}
			w.put(k, d)
		}
		if _, err := w.Boot(); err != nil {
			t.fail("the log of size %d does not start: %v", size, err)
		}
		w.Close()
	}
}
