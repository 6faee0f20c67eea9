package main

import (
	"fmt"
	"time"
)

// Hashes of a wrong length are malformed parameters.
func demo(t *T) {
	w := NewWorld(WorldOpt{})
	defer w.Close()
	rng := newRand(1)
	w.Prefill(rng, 20)
	h, _ := w.Monitor()
	for i := uint64(0); i < 20; i++ {
		lh := w.Aud.LeafHash(i)
		for _, v := range [][]byte{append(lh[:], 0), append(lh[:], lh[:]...), lh[:31]} {
			r := call(h, "GET", fmt.Sprintf("/ct/v1/get-proof-by-hash?tree_size=20&hash=%s", esc(v)), nil, time.Minute)
			if r.Code < 400 || r.Code > 499 {
				t.fail("a hash of %d bytes is answered %v", len(v), r)
			}
		}
	}
}
