package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"
	"time"
)

// readFaults makes reads of the submission side fail while batches are published: whatever the log does about it, heads
// stay backed, and no record of an index or of the deduplication data is lost or wrong afterwards.
func readFaults(t *T, scope map[string]bool, n int) {
	type fault struct {
		kind string
		act  Action
		desc string
	}
	var faults []fault
	for _, kind := range []string{"hash index", "dedupe index", "issuer"} {
		for _, st := range []int{403, 500, 503, 400} {
			faults = append(faults, fault{kind, Action{Status: st}, fmt.Sprintf("%s: %d", kind, st)})
		}
		if kind != "issuer" {
			faults = append(faults, fault{kind, Action{Trunc: true}, kind + ": cut off"})
		}
	}
	t.Parallel(n, 6, func(i int) {
		rng := t.Rand(fmt.Sprint("readfault", i))
		ft := faults[(i+int(t.Seed))%len(faults)]
		w := NewWorld(WorldOpt{Mask: []int{1, 2, 1, 3}[i%4], FlushMs: []int{5, 20}[i%2]})
		defer w.Close()
		if i%3 > 0 {
			w.Prefill(rng, []uint64{20, 300, 700}[rng.Intn(3)])
		}
		var mu sync.Mutex
		on, hits := false, 0
		frng := rand.New(rand.NewSource(rng.Int63()))
		in, err := w.BootWith(func(op *Op) Action {
			mu.Lock()
			defer mu.Unlock()
			if !on || op.Method == "PUT" || opKind(op.Key) != ft.kind || frng.Intn(6) > 0 {
				return Action{}
			}
			hits++
			return ft.act
		}, nil)
		if err != nil {
			t.Inconclusive("boot: %v", err)
			return
		}
		var led Ledger
		burst(t, in, rng, 20+rng.Intn(30), scope, &led)
		mu.Lock()
		on = true
		mu.Unlock()
		for k := 0; k < 12; k++ {
			done := make(chan struct{})
			r := rand.New(rand.NewSource(rng.Int63()))
			go func() {
				defer close(done)
				subs := make([]*Sub, 3+r.Intn(12))
				for j := range subs {
					subs[j] = w.PKI.Small(r)
					if r.Intn(3) == 0 {
						subs[j] = w.PKI.Random(r)
					}
				}
				burstSubs(t, in, subs, scope, &led)
			}()
			select {
			case <-done:
			case <-time.After(700 * time.Millisecond): // the log has stopped, or is retrying
			}
			mu.Lock()
			h := hits
			mu.Unlock()
			if h > 3 && k > 4 {
				break
			}
		}
		mu.Lock()
		h := hits
		on = false
		mu.Unlock()
		in.Kill()
		if h == 0 {
			t.Count("read fault not reached: "+ft.desc, 1)
			return
		}
		t.Count("read faults", int64(h))
		t.Eval("read fault/" + ft.desc)
		in2, err := w.Boot()
		if err != nil {
			t.report(scope, Finding{Cat: "restart-failed", Msg: fmt.Sprintf("no instance starts after reads failed (%s): %v", ft.desc, err)}, w)
			return
		}
		// everything promised, before and during the faults, is still known
		ps := led.All()
		rng.Shuffle(len(ps), func(a, b int) { ps[a], ps[b] = ps[b], ps[a] })
		for _, p := range ps[:min(len(ps), 40)] {
			sct, resp := in2.MustClient(t, p.Sub, nil, scope)
			if sct == nil {
				t.report(scope, Finding{Cat: "dedupe-refused", Msg: fmt.Sprintf("after failed reads (%s), a resubmission is refused: %v", ft.desc, resp)}, w)
				break
			}
			if d := sctDiff(p.SCT, sct); d != "" {
				t.report(scope, Finding{Cat: "dedupe-differs", Msg: fmt.Sprintf("after failed reads (%s), a resubmission gets a different %s", ft.desc, d)}, w)
				break
			}
		}
		burst(t, in2, rng, 5, scope, &led)
		mon, _ := w.Monitor()
		monitorSweep(t, w, mon, rng, scope, led.All(), 5)
		in2.Quiesce()
		t.Drain(scope, w)
		w.Aud.FullAudit(w.Get)
		t.Drain(scope, w)
	})
}

// c06Lookups makes the lookup of known certificates fail: an answer is the same SCT, or an error.
func c06Lookups(t *T, scope map[string]bool) {
	acts := []Action{{Status: 403}, {Status: 500}, {Status: 503}, {Status: 400}, {Trunc: true}}
	t.Parallel(len(acts)+1, 6, func(i int) {
		rng := t.Rand(fmt.Sprint("lookups", i))
		stalled := i == len(acts)
		w := NewWorld(WorldOpt{Mask: []int{2, 5, 1}[i%3], FlushMs: 10})
		defer w.Close()
		hung := make(chan struct{})
		desc := "hangs"
		act := Action{Wait: hung}
		if !stalled {
			act = acts[i]
			desc = fmt.Sprintf("status %d", act.Status)
			if act.Trunc {
				desc = "cut off"
			}
		}
		var mu sync.Mutex
		on, hits := false, 0
		in, err := w.BootWith(func(op *Op) Action {
			mu.Lock()
			defer mu.Unlock()
			if on && op.Method == "GET" && opKind(op.Key) == "dedupe index" {
				hits++
				return act
			}
			return Action{}
		}, nil)
		if err != nil {
			t.Inconclusive("boot: %v", err)
			return
		}
		var led Ledger
		burst(t, in, rng, 12, scope, &led)
		size := func() uint64 { s, _ := w.Aud.Published(); return s.Size }
		n := size()
		set := func(v bool) { mu.Lock(); on = v; mu.Unlock() }
		again := func(when string, must bool) {
			var wg sync.WaitGroup
			for _, p := range led.All() {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := in.Submit(p.Sub)
					t.Eval(fmt.Sprintf("lookup %s/%s/%d", desc, when, r.Code))
					if r.Code != 200 {
						if must {
							t.report(scope, Finding{Cat: "dedupe-refused", Msg: fmt.Sprintf("a resubmission is refused %s (%s): %v", when, desc, r)}, w)
						}
						return
					}
					sct, err := parseSCT(r.Body)
					if err != nil {
						t.report(scope, Finding{Cat: "sct-malformed", Msg: fmt.Sprintf("%v: %.200q", err, r.Body)}, w)
					} else if d := sctDiff(p.SCT, sct); d != "" {
						t.report(scope, Finding{Cat: "dedupe-differs", Msg: fmt.Sprintf("while the deduplication data cannot be read (%s), a resubmission gets a different %s", desc, d)}, w)
					}
				}()
			}
			wg.Wait()
		}
		set(true)
		again("during", false)
		set(false)
		close(hung)
		again("after", true)
		awaitHeads(w, 3, 20*time.Second)
		if size() != n {
			t.report(scope, Finding{Cat: "dedupe-grew", Msg: fmt.Sprintf("resubmissions while the deduplication data cannot be read (%s) grow the log from %d to %d entries", desc, n, size())}, w)
		}
		mu.Lock()
		defer mu.Unlock()
		if hits == 0 {
			t.Inconclusive("no lookup of deduplication data was seen")
		}
		in.Kill()
		t.Drain(scope, w)
	})
}

// c06Racing submits a certificate while an earlier submission of it is being published; once the first has been answered
// the answer stays the same, also after the second has been published.
func c06Racing(t *T, scope map[string]bool) {
	t.Parallel(t.N(6, 40), 6, func(i int) {
		rng := t.Rand(fmt.Sprint("racing", i))
		w := NewWorld(WorldOpt{Mask: []int{1, 2, 5, 32}[i%4], FlushMs: []int{5, 30}[i%2]})
		defer w.Close()
		var mu sync.Mutex
		var gate chan struct{}
		held := 0
		in, err := w.BootWith(func(op *Op) Action {
			mu.Lock()
			defer mu.Unlock()
			if gate != nil && op.Method == "PUT" && opKind(op.Key) == "data tile" {
				held++
				return Action{Wait: gate}
			}
			return Action{}
		}, nil)
		if err != nil {
			t.Inconclusive("boot: %v", err)
			return
		}
		burst(t, in, rng, 5, scope, nil)
		close1 := func(g chan struct{}) {
			defer func() { recover() }()
			close(g)
		}
		g1, g2 := make(chan struct{}), make(chan struct{})
		defer close1(g1)
		defer close1(g2)
		mu.Lock()
		gate = g1
		mu.Unlock()
		s := w.PKI.Random(rng)
		type ans struct {
			sct *SCT
			r   *Resp
		}
		send := func() chan ans {
			c := make(chan ans, 1)
			go func() {
				sct, r := in.Client(t, s, nil, scope)
				c <- ans{sct, r}
			}()
			return c
		}
		heldNow := func() int { mu.Lock(); defer mu.Unlock(); return held }
		a := send()
		for k := 0; k < 1000 && heldNow() == 0; k++ {
			time.Sleep(time.Millisecond)
		}
		b := send()
		time.Sleep(150 * time.Millisecond) // past the lookup and in the sequencer
		mu.Lock()
		gate = g2
		h1 := held
		mu.Unlock()
		close(g1)
		ra := <-a
		if ra.sct == nil {
			t.Count("racing: first not answered", 1)
			return
		}
		var keep []byte
		same := func(when string) {
			sct, r := in.MustClient(t, s, nil, scope)
			if sct == nil {
				t.report(scope, Finding{Cat: "dedupe-refused", Msg: fmt.Sprintf("a resubmission %s is refused: %v", when, r)}, w)
				return
			}
			if d := sctDiff(ra.sct, sct); d != "" {
				t.report(scope, Finding{Cat: "dedupe-differs", Msg: fmt.Sprintf("a resubmission %s gets a different %s", when, d)}, w)
			}
			if keep != nil && !bytes.Equal(keep, r.Body) {
				t.report(scope, Finding{Cat: "dedupe-differs", Msg: fmt.Sprintf("a resubmission %s gets other bytes", when)}, w)
			}
			keep = r.Body
			t.Eval("racing/" + when)
		}
		same("while another one is being published")
		second := heldNow() > h1
		close(g2)
		mu.Lock()
		gate = nil
		mu.Unlock()
		rb := <-b
		awaitHeads(w, 2, 20*time.Second)
		if second && rb.sct != nil && rb.sct.Index != ra.sct.Index {
			t.Count("racing: logged twice", 1)
		}
		same("after another one was published")
		same("again")
		in.Quiesce()
		if in, err = w.Boot(); err != nil {
			t.report(scope, Finding{Cat: "restart-failed", Msg: fmt.Sprint(err)}, w)
			return
		}
		same("after a restart")
		in.Quiesce()
		t.Drain(scope, w)
	})
}
