package main

import "time"

// The window is [start, limit) to the second.
func demo(t *T) {
	start := time.Date(2025, 3, 1, 12, 30, 0, 0, time.UTC)
	limit := time.Date(2025, 9, 1, 18, 0, 0, 0, time.UTC)
	w := NewWorld(WorldOpt{Start: start, Limit: limit})
	defer w.Close()
	in, err := w.Boot()
	must(err)
	rng := newRand(1)
	for _, c := range []struct {
		na time.Time
		ok bool
	}{{start, true}, {start.Add(-time.Second), false}, {start.Add(time.Hour), true}, {limit.Add(-time.Second), true}, {limit, false}, {limit.Add(-time.Hour), true}} {
		s := w.PKI.Issue(w.PKI.Ints[0], leafOpt{notAfter: c.na, rng: rng})
		w.Aud.Register(s)
		if r := in.Submit(s); (r.Code == 200) != c.ok {
			t.fail("NotAfter %v in window %v..%v: answered %v", c.na, start, limit, r)
		}
	}
}
