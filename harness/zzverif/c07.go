package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	checks["C07"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one proof query judged by an independent RFC 6962 verifier (a published size, index or pair must get a verifying 200; a hash that is no leaf of the tree must not get a 200); " +
			"distinct = (query kind, size class of the tree, size class of the tree asked for, static / growing / after a crash) combinations",
		Run: runC07,
	}
}

// publishedSizes adds the partial tiles of earlier published sizes to a reference-built log.
func (w *World) publishedSizes(sizes []uint64) {
	a := w.Aud
	for _, n := range sizes {
		if n == 0 || n >= a.tree.Size() || n <= a.base {
			continue
		}
		for _, t := range tilesFor(a.base, n) {
			if (t.N+1)*256<<(8*uint(t.Level)) <= a.base {
				continue
			}
			w.put(t.Path(), a.tree.tile(t.Level, t.N, t.W))
		}
		for _, t := range dataTilesFor(a.base, n) {
			var b []byte
			for i := 0; i < t.W; i++ {
				b = append(b, a.entries[t.N*256+uint64(i)-a.base].TileLeaf()...)
			}
			w.put(t.Path(), b)
		}
		a.sthSizes[n] = true
	}
}

// refuse requires that a proof query is not answered with success.
func (m *MonClient) refused(target string) error {
	r := m.get(target)
	if r.Panic != "" || r.Hung {
		return fmt.Errorf("%v", r)
	}
	if r.Code < 400 {
		return fmt.Errorf("answered %v", r)
	}
	return nil
}

// notLeaves are hashes that are no leaf of the log.
func notLeaves(w *World, rng *rand.Rand) []Hash {
	a := w.Aud
	var r []Hash
	var h Hash
	rng.Read(h[:])
	r = append(r, h, Hash{}, emptyRoot)
	size := a.Size()
	if size > a.base {
		for k := 0; k < 3; k++ {
			i := a.base + uint64(rng.Int63n(int64(size-a.base)))
			l := a.LeafHash(i)
			x := l
			rng.Read(x[16:]) // same record
			r = append(r, x)
			x = l
			x[31] ^= 1
			r = append(r, x)
			x = l
			x[16] ^= 0x80
			r = append(r, x)
			x = l
			x[15] ^= 1
			r = append(r, x)
			x = l
			x[0] ^= 1
			r = append(r, x)
			// the leaf's bytes hashed as something else
			r = append(r, nodeHash(l, l))
		}
		r = append(r, a.Root(size))
		if size > a.base+2 {
			a.mu.Lock()
			r = append(r, a.tree.Sub(1, a.base/2))
			a.mu.Unlock()
		}
	}
	leaf := map[Hash]bool{}
	a.mu.Lock()
	for _, x := range a.tree.leaves {
		leaf[x] = true
	}
	a.mu.Unlock()
	out := r[:0]
	for _, x := range r {
		if !leaf[x] {
			out = append(out, x)
		}
	}
	return out
}

// phantoms are leaf hashes of entries that were uploaded in data tiles but never published.
func phantoms(w *World) []Hash {
	w.Store.mu.Lock()
	ops := append([]*Op{}, w.Store.log...)
	w.Store.mu.Unlock()
	a := w.Aud
	a.mu.Lock()
	leaf := map[Hash]bool{}
	for _, x := range a.tree.leaves {
		leaf[x] = true
	}
	a.mu.Unlock()
	var r []Hash
	for _, o := range ops {
		if o.Method != "PUT" || opKind(o.Key) != "data tile" {
			continue
		}
		es, err := decodeDataTile(o.Data)
		if err != nil {
			continue
		}
		for _, e := range es {
			h := leafHash(e.Leaf())
			if !leaf[h] {
				leaf[h] = true
				r = append(r, h)
			}
		}
	}
	return r
}

func runC07(t *T) {
	scope := cats("proof-unavailable", "proof-wrong", "proof-alien")
	bad := func(w *World, cat, f string, args ...any) {
		t.report(scope, Finding{Cat: cat, Msg: fmt.Sprintf(f, args...)}, w)
	}
	var jobs []func()

	// A: static logs of many sizes
	sizes := []uint64{1, 2, 3, 4, 5, 7, 8, 9, 31, 64, 100, 127, 128, 129, 254, 255, 256, 257, 258, 300, 383, 511, 512, 513, 514, 600, 767, 768, 769, 1000, 1023, 1024, 1025, 2047, 2049, 4096,
		65279, 65280, 65281, 65535, 65536, 65537, 65791, 65792, 65793, 131071, 131072, 131073, 131328, 131329, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 300, 1<<39 + 257, 1<<40 - 1}
	if t.Thorough {
		for n := uint64(10); n < 1300; n++ {
			sizes = append(sizes, n)
		}
	}
	for si, n := range sizes {
		jobs = append(jobs, func() {
			rng := t.Rand(fmt.Sprint("static", n))
			w := NewWorld(WorldOpt{Mask: []int{1, 2, 5, 32}[si%4], FS: si%5 == 4 && n <= 4096})
			defer w.Close()
			w.Prefill(rng, n)
			a := w.Aud
			var pub []uint64
			for k := 0; k < 8; k++ {
				p := a.base + 1 + uint64(rng.Int63n(int64(n-a.base)))
				pub = append(pub, p)
			}
			for d := uint64(1); d <= 3; d++ {
				pub = append(pub, (n-1)/256*256, n/256*256+d, n-min(n, d))
			}
			w.publishedSizes(pub)
			mon, _ := w.Monitor()
			m := &MonClient{H: mon}
			ps := a.Sizes()
			cls := func(kind string, s uint64) string {
				return fmt.Sprintf("%s/tree %s/asked %s/static", kind, sizeClass(n), sizeClass(s))
			}
			span := n - a.base
			idx := map[uint64]bool{a.base: true, n - 1: true}
			for len(idx) < int(min(span, uint64(t.N(60, 200)))) {
				idx[a.base+uint64(rng.Int63n(int64(span)))] = true
			}
			if span < 300 {
				for i := a.base; i < n; i++ {
					idx[i] = true
				}
			}
			for i := range idx {
				s := n
				if rng.Intn(2) == 0 {
					s = ps[rng.Intn(len(ps))]
				}
				if i >= s || s <= a.base {
					s = n
				}
				if err := m.CheckProofByHash(w, i, s); err != nil {
					bad(w, "proof-unavailable", "log of size %d: get-proof-by-hash of entry %d at published size %d: %v", n, i, s, err)
				}
				t.Eval(cls("hash", s))
				if err := m.CheckEntryAndProof(w, i, s); err != nil {
					bad(w, "proof-unavailable", "log of size %d: get-entry-and-proof of entry %d at published size %d: %v", n, i, s, err)
				}
				t.Eval(cls("entry", s))
			}
			for _, f := range ps {
				for _, s := range ps {
					if f > s || (f > 0 && f < a.base && s < a.base) {
						continue
					}
					if err := m.CheckConsistency(w, f, s); err != nil {
						bad(w, "proof-unavailable", "log of size %d: get-sth-consistency between the published sizes %d and %d: %v", n, f, s, err)
					}
					t.Eval(cls("consistency from "+sizeClass(f), s))
				}
			}
			// sizes that were never published may be refused, but must not get a wrong proof
			for k := 0; k < 10; k++ {
				s := a.base + 1 + uint64(rng.Int63n(int64(span)))
				f := a.base + 1 + uint64(rng.Int63n(int64(span)))
				if f > s {
					f, s = s, f
				}
				r := m.get(fmt.Sprintf("/ct/v1/get-sth-consistency?first=%d&second=%d", f, s))
				if r.Code == 200 {
					if err := m.judgeConsistency(w, f, s, r); err != nil {
						bad(w, "proof-wrong", "log of size %d: get-sth-consistency first=%d second=%d: %v", n, f, s, err)
					}
				}
				i := a.base + uint64(rng.Int63n(int64(s-a.base)))
				r = m.get(fmt.Sprintf("/ct/v1/get-entry-and-proof?leaf_index=%d&tree_size=%d", i, s))
				if r.Code == 200 {
					if err := m.judgeEntryAndProof(w, i, s, r); err != nil {
						bad(w, "proof-wrong", "log of size %d: get-entry-and-proof leaf_index=%d tree_size=%d: %v", n, i, s, err)
					}
				}
				t.Eval("unpublished sizes")
			}
			for _, h := range notLeaves(w, rng) {
				s := ps[rng.Intn(len(ps))]
				if err := m.refused(fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", esc(h[:]), s)); err != nil {
					bad(w, "proof-alien", "log of size %d: a hash that is no leaf of the log, %x: %v", n, h, err)
				}
				t.Eval("not a leaf/" + sizeClass(n))
			}
			// a leaf beyond the size asked for is not in that tree
			for k := 0; k < 6; k++ {
				i := a.base + uint64(rng.Int63n(int64(span)))
				s := uint64(rng.Int63n(int64(i + 1)))
				lh := a.LeafHash(i)
				if err := m.refused(fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", esc(lh[:]), s)); err != nil {
					bad(w, "proof-alien", "entry %d at tree size %d: %v", i, s, err)
				}
				t.Eval("leaf beyond the tree")
			}
			t.Sample(map[string]any{"log size": n, "published sizes": ps, "indices asked": len(idx)})
		})
	}

	jobs = append(jobs, func() { monitorBinaries(t) })

	// B: growing logs with concurrent readers; storage answers slowly now and then, so that trees grow during queries
	for k := 0; k < t.N(12, 80); k++ {
		jobs = append(jobs, func() {
			rng := t.Rand(fmt.Sprint("live", k))
			w := NewWorld(WorldOpt{Mask: []int{2, 5, 1, 3}[k%4], FlushMs: []int{3, 8, 30}[k%3]})
			defer w.Close()
			start := []uint64{0, 0, 240, 250, 500, 65530, 65270, 1<<24 - 100, 1<<32 - 3}[k%9]
			if start > 0 {
				w.Prefill(rng, start)
			}
			in, err := w.Boot()
			if err != nil {
				t.Inconclusive("boot: %v", err)
				return
			}
			mon, gw := w.Monitor()
			var gmu sync.Mutex
			grng := rand.New(rand.NewSource(rng.Int63()))
			gw.SetPolicy(func(op *Op) Action {
				gmu.Lock()
				defer gmu.Unlock()
				if x := grng.Intn(60); x < 3 {
					return Action{Delay: time.Duration(x*8) * time.Millisecond}
				}
				return Action{}
			})
			m := &MonClient{H: mon}
			var done atomic.Bool
			var led Ledger
			var wg sync.WaitGroup
			for q := 0; q < 3; q++ {
				qr := rand.New(rand.NewSource(rng.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for n := 0; (!done.Load() || n < 30) && !t.Failed(); n++ {
						before := w.Aud.Size()
						if before == w.Aud.base {
							time.Sleep(time.Millisecond)
							continue
						}
						sz := w.Aud.Sizes()
						s := sz[len(sz)-1]
						if qr.Intn(2) == 0 {
							s = sz[qr.Intn(len(sz))]
						}
						if s <= w.Aud.base {
							s = before
						}
						i := w.Aud.base + uint64(qr.Int63n(int64(s-w.Aud.base)))
						if qr.Intn(2) == 0 {
							i = s - 1 - min(s-1-w.Aud.base, uint64(qr.Intn(5)))
						}
						c := ""
						switch qr.Intn(3) {
						case 0:
							if err := m.CheckProofByHash(w, i, s); err != nil {
								bad(w, "proof-unavailable", "growing log (%d when asked): get-proof-by-hash of entry %d at published size %d: %v", before, i, s, err)
							}
							c = "hash"
						case 1:
							if err := m.CheckEntryAndProof(w, i, s); err != nil {
								bad(w, "proof-unavailable", "growing log (%d when asked): get-entry-and-proof of entry %d at published size %d: %v", before, i, s, err)
							}
							c = "entry"
						case 2:
							f := sz[qr.Intn(len(sz))]
							if f > s {
								f, s = s, f
							}
							if err := m.CheckConsistency(w, f, s); err != nil {
								bad(w, "proof-unavailable", "growing log (%d when asked): get-sth-consistency between the published sizes %d and %d: %v", before, f, s, err)
							}
							c = "consistency"
						}
						t.Eval(fmt.Sprintf("%s/tree %s/asked %s/growing", c, sizeClass(before), sizeClass(s)))
						if w.Aud.Size() != before {
							t.Count("queries during which the tree grew", 1)
						}
					}
				}()
			}
			for b := 0; b < t.N(10, 25); b++ {
				burst(t, in, rng, []int{1, 2, 5, 20, 60, 200}[rng.Intn(6)], scope, &led)
			}
			done.Store(true)
			wg.Wait()
		})
	}

	// C: after crashes there are tiles and index records of entries that were never published
	for k := 0; k < t.N(24, 150); k++ {
		jobs = append(jobs, func() {
			rng := t.Rand(fmt.Sprint("crash", k))
			w := NewWorld(WorldOpt{Mask: []int{1, 2, 5}[k%3], FlushMs: 12})
			defer w.Close()
			if s := []uint64{0, 250, 255, 300, 65530}[rng.Intn(5)]; s > 0 {
				w.Prefill(rng, s)
			}
			var led Ledger
			mon, _ := w.Monitor()
			m := &MonClient{H: mon}
			stage := func(name string) {
				sz := w.Aud.Sizes()
				now := w.Aud.Size()
				for q := 0; q < 12 && now > w.Aud.base; q++ {
					i := now - 1 - min(now-1-w.Aud.base, uint64(rng.Intn(1+4*q)))
					if err := m.CheckProofByHash(w, i, now); err != nil {
						bad(w, "proof-unavailable", "%s: get-proof-by-hash of entry %d at size %d: %v", name, i, now, err)
					}
					if err := m.CheckEntryAndProof(w, i, now); err != nil {
						bad(w, "proof-unavailable", "%s: get-entry-and-proof of entry %d at size %d: %v", name, i, now, err)
					}
					f, s := sz[rng.Intn(len(sz))], now
					if err := m.CheckConsistency(w, f, s); err != nil {
						bad(w, "proof-unavailable", "%s: get-sth-consistency between %d and %d: %v", name, f, s, err)
					}
					t.Eval(fmt.Sprintf("all/tree %s/%s", sizeClass(now), name))
				}
				ph := phantoms(w)
				rng.Shuffle(len(ph), func(i, j int) { ph[i], ph[j] = ph[j], ph[i] })
				for q, h := range ph {
					if q >= 40 {
						break
					}
					if err := m.refused(fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", esc(h[:]), now)); err != nil {
						bad(w, "proof-alien", "%s: the leaf hash %x of an entry that was never published: %v", name, h, err)
					}
					t.Eval("unpublished leaf/" + name)
				}
				t.Count("unpublished leaves asked for", int64(min(len(ph), 40)))
			}
			for r := 0; r < 2; r++ {
				if _, err := crashRun(t, w, rng, 3+rng.Intn(50), []int{1 + rng.Intn(40), 1 + rng.Intn(40)}, scope, &led); err != nil {
					t.Inconclusive("boot: %v", err)
					return
				}
				stage("crashed")
			}
			in, err := w.Boot()
			if err != nil {
				t.Inconclusive("boot: %v", err)
				return
			}
			stage("restarted")
			for b := 0; b < 3; b++ {
				burst(t, in, rng, 1+rng.Intn(30), scope, &led)
				stage("regrown")
			}
		})
	}
	t.Parallel(len(jobs), 7, func(i int) { jobs[i]() })
	if t.Get("unpublished leaves asked for") == 0 && !t.Failed() {
		t.Inconclusive("no unpublished leaf arose")
	}
}

var _ = json.Marshal
