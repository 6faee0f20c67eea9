package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"time"
)

func init() {
	checks["C01"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one SCT answer judged at the moment it was received (signature, log ID, published head and checkpoint, stored entry); " +
			"distinct = combinations of submission shape, storage kind and how it was answered (new, repeated, after restart)",
		Run: runC01,
	}
}

func runC01(t *T) {
	scope := cats("sct-id", "sct-sig", "sct-early", "sct-entry", "sct-malformed")
	worlds, stalled := t.N(10, 60), t.N(4, 24)
	t.Parallel(worlds+stalled, 7, func(i int) {
		if i < stalled {
			c01Stall(t, i, scope)
			return
		}
		i -= stalled
		rng := t.Rand(fmt.Sprint("world", i))
		w := NewWorld(WorldOpt{Mask: []int{5, 1, 2, 3, 8, 32}[i%6], FlushMs: []int{5, 20, 60, 150}[i%4], FS: i%5 == 4})
		defer w.Close()
		if w.Opt.FS {
			c01FS(t, w, rng, scope)
			return
		}
		if i%3 == 1 {
			w.Prefill(rng, []uint64{255, 1, 256, 511, 65535, 300}[i/3%6])
		}
		var led Ledger
		for boot := 0; boot < t.N(3, 5); boot++ {
			in, err := w.BootWith(jitter(rand.New(rand.NewSource(rng.Int63())), 25*time.Millisecond), nil)
			if err != nil {
				t.Inconclusive("world %d boot %d: %v", i, boot, err)
				return
			}
			churn(t, in, rng, churnOpt{clients: t.N(16, 40), per: t.N(8, 16), resub: 0.3, boot: boot}, scope, &led)
			if boot%2 == 0 {
				in.Kill()
			} else {
				in.Quiesce()
			}
		}
		// same leaf, different chains
		in, err := w.Boot()
		if err != nil {
			t.Inconclusive("world %d: %v", i, err)
			return
		}
		c01Cross(t, in, rng, scope, &led)
		t.Drain(scope, w)
		w.Aud.mu.Lock()
		for _, p := range led.All() {
			for _, f := range w.Aud.checkPromise(p.Sub, p.SCT, w.LogID) {
				t.report(scope, f, nil)
			}
		}
		w.Aud.mu.Unlock()
		t.Count("promises rechecked at the end", int64(len(led.All())))
	})
	if !t.Failed() {
		fullBatches(t, scope, t.N(2, 10))
	}
	if t.Get("scts") < 100 {
		t.Inconclusive("only %d SCTs observed", t.Get("scts"))
	}
}

type churnOpt struct {
	clients, per int
	resub        float64
	boot         int
	small        bool
	burst        bool
}

// churn runs concurrent clients against an instance.
func churn(t *T, in *Inst, rng *rand.Rand, o churnOpt, scope map[string]bool, led *Ledger) {
	var wg sync.WaitGroup
	for c := 0; c < o.clients; c++ {
		r := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < o.per; k++ {
				if in.crashed.Load() {
					return
				}
				var s *Sub
				how := "new"
				if old := led.All(); len(old) > 0 && r.Float64() < o.resub {
					s = old[r.Intn(len(old))].Sub
					if r.Intn(2) == 0 {
						s = s.ToggleRoot()
					}
					how = "repeated"
				} else if o.small {
					s = in.W.PKI.Small(r)
				} else {
					s = in.W.PKI.Random(r)
				}
				twice := r.Intn(8) == 0
				if twice { // identical submissions racing each other
					wg.Add(1)
					go func() {
						defer wg.Done()
						in.Client(t, s, led, scope)
						t.Eval("racing duplicate/" + s.Kind)
					}()
				}
				sct, resp := in.Client(t, s, led, scope)
				if sct != nil {
					t.Eval(fmt.Sprintf("%s/%s/boot%d", s.Kind, how, o.boot))
					t.Sample(map[string]any{"submission": s.Kind, "how": how, "index": sct.Index, "timestamp": sct.Timestamp})
				} else if resp != nil {
					t.Count(fmt.Sprintf("answers %d", resp.Code), 1)
				}
				if !o.burst && r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(8)) * time.Millisecond)
				}
			}
		}()
	}
	wg.Wait()
}

// c01Stall stops storage for longer than submissions wait, so that the log gives clients up and finishes their entries
// later; clients keep coming before, during and after, some of them with what was given up.
func c01Stall(t *T, i int, scope map[string]bool) {
	rng := t.Rand(fmt.Sprint("stall", i))
	w := NewWorld(WorldOpt{Mask: []int{5, 2}[i%2], FlushMs: []int{5, 40, 200}[i%3]})
	defer w.Close()
	in, err := w.BootWith(jitter(rand.New(rand.NewSource(rng.Int63())), 10*time.Millisecond), nil)
	if err != nil {
		t.Inconclusive("stall world %d: %v", i, err)
		return
	}
	var led Ledger
	churn(t, in, rng, churnOpt{clients: 8, per: 4, resub: 0.3, small: true}, scope, &led)
	for round := 0; round < t.N(2, 4) && !t.Failed(); round++ {
		release := make(chan struct{})
		kind := []string{"", "sth", "checkpoint", "dedupe index", "data tile"}[rng.Intn(5)]
		in.GW.SetPolicy(func(op *Op) Action {
			if op.Method == "PUT" && (kind == "" || opKind(op.Key) == kind) {
				return Action{Wait: release}
			}
			return Action{}
		})
		// the last ones are given up just when storage recovers, or are answered just in time
		stall := 5*time.Second + time.Duration(rng.Intn(900))*time.Millisecond
		start := time.Now()
		var wg sync.WaitGroup
		for c := 0; c < 120; c++ {
			r := rand.New(rand.NewSource(rng.Int63()))
			wait := time.Duration(r.Int63n(int64(6 * time.Second)))
			if c%2 == 0 {
				wait = time.Duration(r.Intn(500)) * time.Millisecond
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(wait)
				s := in.W.PKI.Small(r)
				for try := 0; try < 4 && !t.Failed(); try++ {
					sct, resp := in.Client(t, s, &led, scope)
					if sct != nil {
						t.Eval(fmt.Sprintf("storage stalled (%s)/answered at try %d", kind, try+1))
						if r.Intn(2) == 0 {
							break
						}
					} else {
						t.Count(fmt.Sprintf("answers %d to stalled clients", resp.Code), 1)
						if time.Since(start) < stall && r.Intn(3) > 0 { // this one comes back later, or with something else
							time.Sleep(stall - time.Since(start))
						}
					}
					if r.Intn(3) == 0 {
						s = in.W.PKI.Small(r)
					}
				}
			}()
		}
		time.Sleep(stall)
		close(release)
		in.GW.SetPolicy(jitter(rand.New(rand.NewSource(rng.Int63())), 10*time.Millisecond))
		churn(t, in, rng, churnOpt{clients: 16, per: 6, resub: 0.2, small: true, burst: true}, scope, &led)
		wg.Wait()
	}
	t.Drain(scope, w)
	w.Aud.mu.Lock()
	for _, p := range led.All() {
		for _, f := range w.Aud.checkPromise(p.Sub, p.SCT, w.LogID) {
			t.report(scope, f, nil)
		}
	}
	w.Aud.mu.Unlock()
}

// c01Cross submits leaves whose issuing certificates are cross-signed.
func c01Cross(t *T, in *Inst, rng *rand.Rand, scope map[string]bool, led *Ledger) {
	p := in.W.PKI
	// a plain intermediate certified by two roots: same leaf, two chains
	a := p.Ints[0]
	b := p.cross(a, p.Roots[2])
	for _, pre := range []bool{false, true} {
		s1 := p.Issue(a, leafOpt{pre: pre, rng: rng})
		s2 := p.rechain(s1, b, nil, nil)
		for _, s := range []*Sub{s1, s2, s1, s2} {
			if sct, r := in.Client(t, s, led, scope); sct != nil {
				t.Eval("cross-signed intermediate/" + s.Kind)
			} else {
				t.Count(fmt.Sprintf("cross answers %d", r.Code), 1)
			}
		}
	}
	// a precert signing certificate certified by two different intermediates: the logged TBS and issuer key hash differ
	pa := p.Pres[0]
	for k := 0; k < 3; k++ {
		pb := p.cross(pa, p.Ints[3])
		if k == 2 { // by one with the same key under another name: the same issuer key hash, but another TBS
			pb = p.cross(pa, p.renamed(pa.Up))
		}
		s1, s2 := p.issueCrossPre(pa, pb, rng)
		for _, s := range []*Sub{s1, s2, s2, s1} {
			if sct, r := in.Client(t, s, led, scope); sct != nil {
				t.Eval("cross-signed pre-issuer/" + s.Kind)
			} else {
				t.Count(fmt.Sprintf("cross answers %d", r.Code), 1)
			}
		}
	}
}

// c01FS runs on filesystem storage; the oracle reads the files when the answer arrives.
func c01FS(t *T, w *World, rng *rand.Rand, scope map[string]bool) {
	var led Ledger
	read := func(k string) []byte {
		d, _ := os.ReadFile(filepath.Join(w.FSDir, k))
		return d
	}
	w.Opt.NoAudit = true
	for boot := 0; boot < 2; boot++ {
		in, err := w.Boot()
		if err != nil {
			t.Inconclusive("fs boot: %v", err)
			return
		}
		var wg sync.WaitGroup
		for c := 0; c < 8; c++ {
			r := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < t.N(8, 30); k++ {
					s := w.PKI.Random(r)
					if old := led.All(); len(old) > 0 && r.Intn(3) == 0 {
						s = old[r.Intn(len(old))].Sub
					}
					sct, _ := in.Client(t, s, &led, scope)
					if sct == nil {
						continue
					}
					// heads first: they must cover the index already
					rep := func(cat, f string, args ...any) {
						t.report(scope, Finding{Cat: cat, Msg: "filesystem storage: " + fmt.Sprintf(f, args...)}, nil)
					}
					h, err := readHead(read, "ct/v1/get-sth", func(b []byte) (Head, error) { return verifySTH(b, &w.Key.PublicKey) })
					if err != nil || h.Size <= sct.Index {
						rep("sct-early", "SCT for index %d while get-sth is %v (%v)", sct.Index, h, err)
					}
					cp, err := readHead(read, "checkpoint", func(b []byte) (Head, error) { return verifyCheckpoint(b, w.Origin, &w.Key.PublicKey) })
					if err != nil || cp.Size <= sct.Index {
						rep("sct-early", "SCT for index %d while the checkpoint is %v (%v)", sct.Index, cp, err)
					}
					e := s.entryFor(sct.Timestamp, sct.Index)
					if !bytes.Equal(sct.ID, w.LogID[:]) {
						rep("sct-id", "log ID %x", sct.ID)
					}
					if err := checkDigSig(&w.Key.PublicKey, e.Leaf(), sct.Sig); err != nil {
						rep("sct-sig", "index %d: %v", sct.Index, err)
					}
					// the entry, from the tile belonging to the head
					n := sct.Index / 256
					ok := false
					for _, sz := range []uint64{h.Size, cp.Size} {
						wd := sz - n*256
						if wd > 256 {
							wd = 256
						}
						es, err := decodeDataTile(read(TileID{-1, n, int(wd)}.Path()))
						if err == nil && uint64(len(es)) > sct.Index%256 && bytes.Equal(es[sct.Index%256].Leaf(), e.Leaf()) {
							ok = true
						}
					}
					if !ok {
						rep("sct-entry", "the entry promised at index %d is not in the data tile of size %d", sct.Index, h.Size)
					}
					t.Eval("filesystem/" + s.Kind)
				}
			}()
		}
		wg.Wait()
		in.Quiesce()
	}
}

// readHead reads a head that may be replaced at any moment.
func readHead(read func(string) []byte, key string, verify func([]byte) (Head, error)) (h Head, err error) {
	for i := 0; i < 3; i++ {
		if h, err = verify(read(key)); err == nil {
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
	return
}
