package main

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	checks["C08"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one get-entries answer compared byte for byte with the entries and chains the log committed to (a start inside the tree must get a non-empty 200); " +
			"distinct = (tree size class, start position in its tile, tiles spanned, end inside/at/beyond the tree, storage kind, static / growing / after a crash) combinations",
		Run: runC08,
	}
}

func rangeClass(start, end, size uint64) string {
	p := "mid"
	switch start % 256 {
	case 0:
		p = "first"
	case 255:
		p = "last"
	}
	e := "inside"
	switch {
	case end == size-1:
		e = "at the end"
	case end >= size:
		e = "beyond the end"
		end = size - 1
	}
	sp := end/256 - start/256
	n := fmt.Sprint(sp)
	if sp > 4 {
		n = ">4"
	}
	return fmt.Sprintf("tree %s/start %s/tiles+%s/%s", sizeClass(size), p, n, e)
}

// retrieveAll reads the whole log by repeated ranges, as a monitor does.
func (m *MonClient) retrieveAll(w *World, from, size uint64, step func() uint64) (int, error) {
	n := 0
	for i := from; i < size; {
		end := i + step() - 1
		r := m.get(fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", i, end))
		if r.Panic != "" || r.Hung || r.Code != 200 {
			return n, fmt.Errorf("start=%d end=%d of %d: %v", i, end, size, r)
		}
		k, err := m.judgeEntries(w, i, end, r)
		if err != nil {
			return n, fmt.Errorf("start=%d end=%d of %d: %v", i, end, size, err)
		}
		n++
		i += uint64(k)
	}
	return n, nil
}

func randRange(rng *rand.Rand, base, size uint64) (s, e uint64) {
	s = base + uint64(rng.Int63n(int64(size-base)))
	switch rng.Intn(4) {
	case 0:
		s = s / 256 * 256
	case 1:
		s = s/256*256 + 255
	case 2:
		if rng.Intn(2) == 0 {
			s = size - 1 - min(uint64(rng.Intn(3)), size-1-base)
		}
	}
	if s < base {
		s = base
	}
	if s >= size {
		s = size - 1
	}
	switch rng.Intn(8) {
	case 0:
		e = s
	case 1:
		e = s/256*256 + 255
	case 2:
		e = s/256*256 + 256
	case 3:
		e = size - 1
	case 4:
		e = size + uint64(rng.Intn(3))
	case 5:
		e = s + uint64(rng.Intn(1500))
	case 6:
		e = 1<<63 - 1
	case 7:
		e = s + uint64(rng.Intn(20))
	}
	if e < s {
		e = s
	}
	return
}

func runC08(t *T) {
	scope := cats("entries-wrong", "entries-unavailable", "entry-content", "issuer-content", "backing-issuer", "entry-alien")
	bad := func(w *World, cat, f string, args ...any) {
		t.report(scope, Finding{Cat: cat, Msg: fmt.Sprintf(f, args...)}, w)
	}
	steps := func(rng *rand.Rand) func() uint64 {
		k := []uint64{40, 7, 100, 256, 1000, 1024, 1025, 4096}[rng.Intn(8)]
		return func() uint64 {
			if rng.Intn(3) == 0 {
				return 1 + uint64(rng.Intn(int(k)))
			}
			return k
		}
	}
	var jobs []func()
	sizes := []uint64{1, 2, 3, 100, 255, 256, 257, 258, 511, 512, 513, 600, 1023, 1024, 1025, 1026, 1279, 1280, 1281, 2048, 2500, 3000, 4096,
		65280, 65535, 65536, 65537, 65700, 1<<24 - 1, 1<<24 + 255, 1<<32 - 1, 1 << 32, 1<<32 + 255, 1<<40 - 1}
	for si, n := range sizes {
		for _, fs := range []bool{false, true} {
			if fs && n > 4096 {
				continue
			}
			jobs = append(jobs, func() {
				rng := t.Rand(fmt.Sprint("static", n, fs))
				w := NewWorld(WorldOpt{Mask: []int{1, 2, 5, 32}[si%4], FS: fs})
				defer w.Close()
				w.Prefill(rng, n)
				a := w.Aud
				mon, _ := w.Monitor()
				m := &MonClient{H: mon}
				kind := "url"
				if fs {
					kind = "fs"
				}
				for k := 0; k < t.N(80, 600); k++ {
					s, e := randRange(rng, a.base, n)
					if err := m.CheckEntries(w, s, e, n); err != nil {
						bad(w, "entries-wrong", "%s log of size %d: get-entries start=%d end=%d: %v", kind, n, s, e, err)
						break
					}
					t.Eval(rangeClass(s, e, n) + "/" + kind + "/static")
				}
				for r := 0; r < 2; r++ {
					k, err := m.retrieveAll(w, a.base, n, steps(rng))
					if err != nil {
						bad(w, "entries-wrong", "%s log of size %d cannot be retrieved: %v", kind, n, err)
					}
					t.Count("whole logs retrieved", 1)
					t.Count("ranges in whole retrievals", int64(k))
				}
			})
		}
	}
	// growing logs, storage slow now and then
	for k := 0; k < t.N(14, 80); k++ {
		jobs = append(jobs, func() {
			rng := t.Rand(fmt.Sprint("live", k))
			fs := k%4 == 3
			w := NewWorld(WorldOpt{Mask: []int{2, 5, 1, 3}[k%4], FlushMs: []int{3, 8, 30}[k%3], FS: fs})
			defer w.Close()
			if start := []uint64{0, 0, 240, 0, 500, 65530, 65270, 0, 1<<32 - 3}[k%9]; start > 0 && !fs {
				w.Prefill(rng, start)
			}
			in, err := w.Boot()
			if err != nil {
				t.Inconclusive("boot: %v", err)
				return
			}
			mon, gw := w.Monitor()
			m := &MonClient{H: mon}
			var led Ledger
			if fs {
				// the auditor cannot watch files being written; it reads them when the log is quiet
				w.Opt.NoAudit = true
				for b := 0; b < 6; b++ {
					burst(t, in, rng, []int{3, 40, 120, 300}[rng.Intn(4)], scope, &led)
				}
				in.Quiesce()
				d, _ := w.Get("ct/v1/get-sth")
				w.Aud.onPut(&Op{Method: "PUT", Key: "ct/v1/get-sth", Data: d}, w.Get)
				for q := 0; q < 60; q++ {
					s, e := randRange(rng, 0, w.Aud.Size())
					if err := m.CheckEntries(w, s, e, w.Aud.Size()); err != nil {
						bad(w, "entries-wrong", "fs log of size %d: get-entries start=%d end=%d: %v", w.Aud.Size(), s, e, err)
						break
					}
					t.Eval(rangeClass(s, e, w.Aud.Size()) + "/fs/grown")
				}
			} else {
				var gmu sync.Mutex
				grng := rand.New(rand.NewSource(rng.Int63()))
				gw.SetPolicy(func(op *Op) Action {
					gmu.Lock()
					defer gmu.Unlock()
					if x := grng.Intn(60); x < 3 {
						return Action{Delay: time.Duration(x*8) * time.Millisecond}
					}
					return Action{}
				})
				var done atomic.Bool
				var wg sync.WaitGroup
				for q := 0; q < 3; q++ {
					qr := rand.New(rand.NewSource(rng.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						for n := 0; (!done.Load() || n < 30) && !t.Failed(); n++ {
							before := w.Aud.Size()
							if before == w.Aud.base {
								time.Sleep(time.Millisecond)
								continue
							}
							s, e := randRange(qr, w.Aud.base, before)
							if err := m.CheckEntries(w, s, e, before); err != nil {
								bad(w, "entries-wrong", "growing log (%d when asked): get-entries start=%d end=%d: %v", before, s, e, err)
							}
							t.Eval(rangeClass(s, e, before) + "/url/growing")
							if w.Aud.Size() != before {
								t.Count("queries during which the tree grew", 1)
							}
						}
					}()
				}
				for b := 0; b < t.N(8, 25); b++ {
					n := []int{1, 2, 5, 20, 60, 200}[rng.Intn(6)]
					subs := make([]*Sub, n)
					for i := range subs {
						subs[i] = w.PKI.Random(rng)
					}
					burstSubs(t, in, subs, scope, &led)
				}
				done.Store(true)
				wg.Wait()
			}
			if _, err := m.retrieveAll(w, w.Aud.base, w.Aud.Size(), steps(rng)); err != nil {
				bad(w, "entries-wrong", "grown log of size %d cannot be retrieved: %v", w.Aud.Size(), err)
			}
			t.Count("whole logs retrieved", 1)
			for _, p := range led.All() {
				if p.SCT.Index >= w.Aud.Size() {
					bad(w, "entries-unavailable", "entry %d has an SCT but is not in the published tree", p.SCT.Index)
					continue
				}
				// what is served at the index is what was submitted, chain included
				e, err := p.Sub.entryFor(p.SCT.Timestamp, p.SCT.Index), error(nil)
				r := m.get(fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", p.SCT.Index, p.SCT.Index))
				if r.Code != 200 {
					err = fmt.Errorf("%v", r)
				} else {
					err = sameServed(r.Body, e, p.Sub)
				}
				if err != nil {
					bad(w, "entries-wrong", "entry %d (%s): %v", p.SCT.Index, p.Sub.Kind, err)
				}
				t.Eval("entry as submitted/" + p.Sub.Kind)
			}
			t.Drain(scope, w)
		})
	}
	// crashes leave tiles behind that were never published
	for k := 0; k < t.N(14, 120); k++ {
		jobs = append(jobs, func() {
			rng := t.Rand(fmt.Sprint("crash", k))
			w := NewWorld(WorldOpt{Mask: []int{1, 2, 5}[k%3], FlushMs: 12})
			defer w.Close()
			if s := []uint64{0, 250, 255, 300, 65530}[rng.Intn(5)]; s > 0 {
				w.Prefill(rng, s)
			}
			var led Ledger
			mon, _ := w.Monitor()
			m := &MonClient{H: mon}
			stage := func(name string) {
				n := w.Aud.Size()
				for q := 0; q < 15 && n > w.Aud.base; q++ {
					s, e := randRange(rng, w.Aud.base, n)
					if err := m.CheckEntries(w, s, e, n); err != nil {
						bad(w, "entries-wrong", "%s log of size %d: get-entries start=%d end=%d: %v", name, n, s, e, err)
						break
					}
					t.Eval(rangeClass(s, e, n) + "/url/" + name)
				}
				if _, err := m.retrieveAll(w, w.Aud.base, n, steps(rng)); err != nil {
					bad(w, "entries-wrong", "%s log of size %d cannot be retrieved: %v", name, n, err)
				}
				t.Count("whole logs retrieved", 1)
			}
			for r := 0; r < 2; r++ {
				if _, err := crashRun(t, w, rng, 3+rng.Intn(50), []int{1 + rng.Intn(40), 1 + rng.Intn(40)}, scope, &led); err != nil {
					t.Inconclusive("boot: %v", err)
					return
				}
				stage("crashed")
			}
			in, err := w.Boot()
			if err != nil {
				t.Inconclusive("boot: %v", err)
				return
			}
			stage("restarted")
			for b := 0; b < 2; b++ {
				burst(t, in, rng, 1+rng.Intn(30), scope, &led)
				stage("regrown")
			}
			t.Drain(scope, w)
		})
	}
	t.Parallel(len(jobs), 7, func(i int) { jobs[i]() })
}
