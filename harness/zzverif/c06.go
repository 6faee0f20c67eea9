package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"
	"time"
)

func init() {
	checks["C06"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one resubmission of a certificate whose SCT had been returned, answer compared field by field with the first; " +
			"distinct = (submission kind, mask, restarts since: none/orderly/crash, root toggled, neighbours in its index file, concurrent fresh traffic) combinations",
		Run: runC06,
	}
}

func sctDiff(a, b *SCT) string {
	switch {
	case !bytes.Equal(a.ID, b.ID):
		return "log ID"
	case a.Timestamp != b.Timestamp:
		return fmt.Sprintf("timestamp %d/%d", a.Timestamp, b.Timestamp)
	case a.Index != b.Index:
		return fmt.Sprintf("index %d/%d", a.Index, b.Index)
	case !bytes.Equal(a.Sig, b.Sig):
		return "signature"
	case !bytes.Equal(a.Ext, b.Ext):
		return "extensions"
	}
	return ""
}

// neighbours plants deduplication records that share all but the last byte of the key with fp.
func (w *World) neighbours(rng *rand.Rand, subs []*Sub) {
	byObj := map[string][][]byte{}
	for _, s := range subs {
		key := func(n [32]byte) string { return "int/dedupe/" + maskPath(n[:16], w.Opt.Mask) }
		for _, d := range []int{-1, 1, 5} {
			n := s.FP
			n[15] = byte(int(n[15]) + d)
			k := key(n)
			byObj[k] = append(byObj[k], dedupeRecord(n, uint64(rng.Intn(1000)), 1700000000000+uint64(rng.Intn(1000))))
		}
		n := s.FP
		n[7] ^= 0x10 // same first bytes, far away in the file
		k := key(n)
		byObj[k] = append(byObj[k], dedupeRecord(n, uint64(rng.Intn(1000)), 1700000000000))
	}
	for k, recs := range byObj {
		if d, ok := w.Get(k); ok {
			for i := 0; i+29 <= len(d); i += 29 {
				recs = append(recs, d[i:i+29])
			}
		}
		w.put(k, joinSorted(recs))
	}
}

func runC06(t *T) {
	c06Main(t)
	c06Racing(t, c06Scope)
	c06Lookups(t, c06Scope)
	readFaults(t, c06Scope, t.N(14, 84))
	fullBatches(t, c06Scope, t.N(2, 10))
	if canStepClock && !t.Failed() {
		c06Clock(t, c06Scope)
	}
}

// fullBatches makes logs write batches as large as they get, checks every answer, and submits everything again.
func fullBatches(t *T, scope map[string]bool, n int) {
	t.Parallel(n, 2, func(i int) {
		rng := t.Rand(fmt.Sprint("full batches", i))
		w := NewWorld(WorldOpt{Mask: []int{2, 5, 1, 3}[i%4], FlushMs: 700})
		defer w.Close()
		if i%2 == 1 {
			w.Prefill(rng, []uint64{200, 1, 65400}[rng.Intn(3)])
		}
		in, err := w.Boot()
		if err != nil {
			t.Inconclusive("full batches: %v", err)
			return
		}
		subs := make([]*Sub, 560+rng.Intn(200))
		for k := range subs {
			if rng.Intn(4) == 0 {
				subs[k] = w.PKI.Random(rng)
			} else {
				subs[k] = w.PKI.Small(rng)
			}
			w.Aud.Register(subs[k])
		}
		var led Ledger
		for try := 0; try < 4; try++ { // a pool is limited in size, and the last ones might have to try again
			var todo []*Sub
			have := map[*Sub]bool{}
			for _, p := range led.All() {
				have[p.Sub] = true
			}
			for _, s := range subs {
				if !have[s] {
					todo = append(todo, s)
				}
			}
			if len(todo) > 0 {
				burstSubs(t, in, todo, scope, &led)
			}
		}
		quiescent(t, w, scope)
		w.Aud.mu.Lock()
		largest := uint64(0)
		for k := 1; k < len(w.Aud.sthLog); k++ {
			largest = max(largest, w.Aud.sthLog[k].Size-w.Aud.sthLog[k-1].Size)
		}
		for _, p := range led.All() {
			for _, f := range w.Aud.checkPromise(p.Sub, p.SCT, w.LogID) {
				t.report(scope, f, nil)
			}
		}
		w.Aud.mu.Unlock()
		t.Count(fmt.Sprintf("largest batch %s", batchClass(largest)), 1)
		for round := 0; round < 2; round++ {
			var wg sync.WaitGroup
			sem := make(chan struct{}, 16)
			for _, p := range led.All() {
				wg.Add(1)
				sem <- struct{}{}
				go func() {
					defer wg.Done()
					defer func() { <-sem }()
					sct, resp := in.MustClient(t, p.Sub, nil, scope)
					if sct == nil {
						t.report(scope, Finding{Cat: "dedupe-refused", Msg: fmt.Sprintf("after a batch of %d: a resubmission (%s) is refused: %v", largest, p.Sub.Kind, resp)}, w)
					} else if d := sctDiff(p.SCT, sct); d != "" {
						t.report(scope, Finding{Cat: "dedupe-differs", Msg: fmt.Sprintf("after a batch of %d: resubmission of %s, entry %d, gets a different %s", largest, p.Sub.Kind, p.SCT.Index, d)}, w)
					}
					t.Eval(fmt.Sprintf("full batches/largest %s/restarted %v", batchClass(largest), round > 0))
				}()
			}
			wg.Wait()
			in.Quiesce()
			w.Aud.FullAudit(w.Get)
			t.Count("deduplication records checked after full batches", int64(w.Aud.DedupeAudit(w.Get)))
			t.Drain(scope, w)
			if t.Failed() || round > 0 {
				return
			}
			if in, err = w.Boot(); err != nil {
				t.report(scope, Finding{Cat: "restart-failed", Msg: fmt.Sprintf("after full batches: %v", err)}, w)
				return
			}
		}
	})
}

// c06Clock resubmits long after the first submission, and with the clock behind the time of the first submission, with
// and without restarts.
func c06Clock(t *T, scope map[string]bool) {
	defer setWallClock(0)
	type one struct {
		w    *World
		in   *Inst
		rng  *rand.Rand
		subs []*Sub
		scts []*SCT
	}
	worlds := make([]*one, t.N(3, 12))
	for i := range worlds {
		o := &one{rng: t.Rand(fmt.Sprint("clock", i))}
		worlds[i] = o
		o.w = NewWorld(WorldOpt{Mask: []int{2, 5, 1}[i%3], FlushMs: []int{10, 40, 5}[i%3]})
		defer o.w.Close()
		if i%2 == 1 {
			o.w.Prefill(o.rng, 300)
		}
		for k := 0; k < 12; k++ {
			o.subs = append(o.subs, o.w.PKI.Random(o.rng))
			o.w.Aud.Register(o.subs[k])
		}
		o.scts = make([]*SCT, len(o.subs))
	}
	offs := []time.Duration{0, time.Minute, 0, 25 * time.Hour, -time.Second, 40 * 24 * time.Hour, -90 * time.Minute, 800 * 24 * time.Hour, -10 * 24 * time.Hour, 0}
	for step, off := range offs {
		setWallClock(off)
		t.Parallel(len(worlds), 4, func(i int) {
			o := worlds[i]
			hist := "same instance"
			if o.in == nil || (step+i)%3 == 0 {
				if o.in != nil {
					o.in.Quiesce()
				}
				hist = "restarted"
				var err error
				if o.in, err = o.w.Boot(); err != nil {
					t.report(scope, Finding{Cat: "restart-failed", Msg: fmt.Sprintf("clock off by %v: instance does not start again: %v", off, err)}, o.w)
					return
				}
			}
			for k, s := range o.subs {
				if k > 9 && step < 3 {
					continue // first submitted while the clock is off
				}
				sct, resp := o.in.MustClient(t, s, nil, scope)
				switch {
				case sct == nil:
					t.report(scope, Finding{Cat: "dedupe-refused", Msg: fmt.Sprintf("clock off by %v, %s: submission (known: %v) is refused: %v", off, hist, o.scts[k] != nil, resp)}, o.w)
				case o.scts[k] == nil:
					o.scts[k] = sct
				default:
					if d := sctDiff(o.scts[k], sct); d != "" {
						t.report(scope, Finding{Cat: "dedupe-differs", Msg: fmt.Sprintf("clock off by %v, %s: resubmission of %s gets a different %s", off, hist, s.Kind, d)}, o.w)
					}
					t.Eval(fmt.Sprintf("clock off by %v/%s/%s", off, hist, s.Kind))
				}
			}
		})
	}
	for _, o := range worlds {
		if o.in != nil {
			o.in.Quiesce()
		}
		t.Drain(scope, o.w)
	}
}

var c06Scope = cats("dedupe-differs", "dedupe-refused", "dedupe-grew", "dedupe-type", "sct-entry", "sct-sig", "sct-early", "sct-malformed", "dedupe-format", "restart-failed")

func c06Main(t *T) {
	scope := c06Scope
	n := t.N(48, 400)
	t.Parallel(n, 6, func(i int) {
		rng := t.Rand(fmt.Sprint("world", i))
		mask := []int{1, 2, 3, 5, 32, 1}[i%6]
		w := NewWorld(WorldOpt{Mask: mask, FlushMs: []int{4, 15, 40}[i%3], FS: i%8 == 7, Bulk: true})
		defer w.Close()
		if w.Opt.FS {
			w.Opt.NoAudit = true
		} else if i%4 == 1 {
			w.Prefill(rng, []uint64{200, 255, 1<<16 - 3, 1<<32 - 5, 1<<33 + 7, 1<<39 + 250}[i/4%6])
		}
		rep := func(cat, f string, args ...any) { t.report(scope, Finding{Cat: cat, Msg: fmt.Sprintf(f, args...)}, w) }
		size := func() uint64 {
			d, _ := w.Get("ct/v1/get-sth")
			h, err := verifySTH(d, &w.Key.PublicKey)
			if err != nil {
				return 0
			}
			return h.Size
		}
		// the population: certificates, precertificates and the final certificates of precertificates
		var subs []*Sub
		for k := 0; k < t.N(24, 60); k++ {
			s := w.PKI.Random(rng)
			subs = append(subs, s)
			if s.Pre && !s.PreIssuer && rng.Intn(2) == 0 {
				subs = append(subs, w.PKI.finalOf(s))
			}
		}
		// the same precertificate with signing certificates by different authorities, which makes different entries
		pb := w.PKI.cross(w.PKI.Pres[0], w.PKI.Ints[3])
		for k := 0; k < 2; k++ {
			s1, s2 := w.PKI.issueCrossPre(w.PKI.Pres[0], pb, rng)
			subs = append(subs, s1, s2)
		}
		// ... of the same key under another name: the issuer key hash is the same, the to-be-signed part is not
		pc := w.PKI.cross(w.PKI.Pres[0], w.PKI.renamed(w.PKI.Pres[0].Up))
		s1, s2 := w.PKI.issueCrossPre(w.PKI.Pres[0], pc, rng)
		subs = append(subs, s1, s2)
		planted := i%2 == 0
		if planted {
			w.neighbours(rng, subs)
		}
		for _, s := range subs {
			w.Aud.Register(s)
		}
		first := map[*Sub][]*SCT{}
		var mu sync.Mutex
		slack := 0    // submissions that may have been logged although they got no SCT
		distinct := 0 // entries that must exist
		in, err := w.BootWith(jitter(rand.New(rand.NewSource(rng.Int63())), 5*time.Millisecond), nil)
		if err != nil {
			t.Inconclusive("boot: %v", err)
			return
		}
		base := size()
		hist := "none"
		submitFirst := func(in *Inst, s *Sub, racing int) {
			var wg sync.WaitGroup
			for r := 0; r < racing; r++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					sct, _ := in.Client(t, s, nil, scope)
					mu.Lock()
					defer mu.Unlock()
					if sct == nil {
						slack++
						return
					}
					for _, o := range first[s] {
						if sctDiff(o, sct) == "" {
							return
						}
					}
					first[s] = append(first[s], sct)
					distinct++
				}()
			}
			wg.Wait()
		}
		resubmit := func(in *Inst, s *Sub, fresh bool) {
			q := s
			toggled := rng.Intn(3) == 0
			if toggled {
				q = s.ToggleRoot()
			}
			mu.Lock()
			prev := append([]*SCT{}, first[s]...)
			mu.Unlock()
			if len(prev) == 0 {
				return
			}
			sct, resp := in.MustClient(t, q, nil, scope)
			if in.crashed.Load() {
				return
			}
			if sct == nil {
				rep("dedupe-refused", "a resubmission (%s, mask %d, restarts %s) is refused: %v", s.Kind, mask, hist, resp)
				return
			}
			d := ""
			for _, o := range prev {
				if d = sctDiff(o, sct); d == "" {
					break
				}
			}
			if d != "" {
				rep("dedupe-differs", "resubmission of %s (mask %d, restarts %s, root toggled %v, %d SCTs before) gets a different %s", s.Kind, mask, hist, toggled, len(prev), d)
			} else if len(prev) > 1 {
				// racing first submissions: settle on one from now on
				mu.Lock()
				first[s] = []*SCT{sct}
				mu.Unlock()
			}
			t.Eval(fmt.Sprintf("%s/mask %d/%s/toggled %v/planted %v/fresh %v", s.Kind, mask, hist, toggled, planted, fresh))
			t.Sample(map[string]any{"submission": s.Kind, "mask": mask, "restarts": hist, "root toggled": toggled, "index": sct.Index})
		}
		all := func(in *Inst, fresh bool) {
			var wg sync.WaitGroup
			stop := make(chan struct{})
			if fresh {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewSource(int64(i) + 77))
					for k := 0; k < 40; k++ {
						select {
						case <-stop:
							return
						default:
						}
						s := w.PKI.Small(r)
						w.Aud.Register(s)
						submitFirst(in, s, 1)
					}
				}()
			}
			order := rng.Perm(len(subs))
			var w2 sync.WaitGroup
			sem := make(chan struct{}, 8)
			for _, k := range order {
				s := subs[k]
				w2.Add(1)
				sem <- struct{}{}
				go func() {
					defer w2.Done()
					defer func() { <-sem }()
					resubmit(in, s, fresh)
				}()
			}
			w2.Wait()
			close(stop)
			wg.Wait()
		}
		lockRng := &lockedSource{r: rand.New(rand.NewSource(rng.Int63()))}
		rng = rand.New(lockRng)
		// first submissions, some racing with themselves
		var wg sync.WaitGroup
		for _, s := range subs {
			wg.Add(1)
			racing := 1
			if rng.Intn(6) == 0 {
				racing = 3
			}
			go func() { defer wg.Done(); submitFirst(in, s, racing) }()
		}
		wg.Wait()
		all(in, false)
		all(in, true)
		for boot := 0; boot < t.N(2, 4); boot++ {
			if boot%2 == 1 || w.Opt.FS {
				in.Quiesce()
				hist = "orderly"
			} else {
				// crash in the middle of unrelated traffic; everything answered so far counts
				sc := NewSched(rand.New(rand.NewSource(rng.Int63())))
				at := 1 + rng.Intn(25)
				sc.Decide = func(k int, op *Op) Verdict { return Verdict{Crash: k == at, Act: Action{Drop: k == at && at%2 == 0}} }
				sc.mu.Lock()
				sc.OnCrash = in.markDead
				sc.mu.Unlock()
				in.GW.SetPolicy(sc.Policy)
				for k := 0; k < 30 && !sc.Crashed(); k++ {
					var wg sync.WaitGroup
					for j := 0; j < 5; j++ {
						s := w.PKI.Small(rng)
						w.Aud.Register(s)
						wg.Add(1)
						go func() { defer wg.Done(); submitFirst(in, s, 1) }()
					}
					wg.Wait()
				}
				sc.CrashNow()
				sc.Close()
				in.Kill()
				hist = "crash"
			}
			in, err = w.Boot()
			if err != nil {
				rep("restart-failed", "world %d base %d boot %d %s: instance does not start again: %v", i, base, boot, hist, err)
				return
			}
			all(in, boot%2 == 0)
		}
		// a certificate at the precertificate endpoint and vice versa stays an error although it is known
		for k := 0; k < 6; k++ {
			s := subs[rng.Intn(len(subs))]
			p := "/ct/v1/add-chain"
			if !s.Pre {
				p = "/ct/v1/add-pre-chain"
			}
			r := call(in.H, "POST", p, s.Body(), 0)
			if r.Code == 200 {
				rep("dedupe-type", "a logged %s is answered with an SCT at %s", s.Kind, p)
			}
			t.Eval("wrong endpoint/" + s.Kind)
		}
		before := size()
		all(in, false)
		all(in, false)
		if !w.Opt.FS {
			awaitHeads(w, 2, 20*time.Second)
		} else {
			time.Sleep(300 * time.Millisecond)
		}
		after := size()
		if after != before {
			rep("dedupe-grew", "resubmissions alone grow the log from %d to %d entries", before, after)
		}
		if after-base > uint64(distinct+slack) {
			rep("dedupe-grew", "%d entries were added for %d distinct SCTs (and %d unanswered submissions)", after-base, distinct, slack)
		}
		if after-base < uint64(distinct) {
			rep("dedupe-differs", "%d distinct SCTs were returned but only %d entries were added", distinct, after-base)
		}
		in.Quiesce()
		if !w.Opt.FS {
			t.Drain(scope, w)
		}
	})
	if t.Get("scts") < 500 {
		t.Inconclusive("only %d SCTs", t.Get("scts"))
	}
}

type lockedSource struct {
	mu sync.Mutex
	r  *rand.Rand
}

func (l *lockedSource) Int63() int64 {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Int63()
}
func (l *lockedSource) Seed(int64) {}
