package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"time"
)

func init() {
	checks["C04"] = Check{
		Level: "fault_enumeration",
		Rule: "one evaluation = one crash placed at an exact storage write (with a random subset of the writes in flight applied), followed by a restart, promise re-check, fresh submissions and a full read through the monitor API; " +
			"distinct = (kind of write crashed at, applied or lost, starting size class, crash round) combinations",
		Run: runC04,
	}
	checks["C05"] = Check{
		Level: "fault_enumeration",
		Rule: "one evaluation = one write refused by storage (403) at a chosen position, followed by submissions to the faulty instance, observation of its lock and a new instance on the same storage; " +
			"distinct = (kind of write refused, transient/permanent, applied or not) combinations",
		Run: runC05,
	}
}

func esc(b []byte) string { return url.QueryEscape(b64(b)) }

// crashRun boots an instance under a scheduler that crashes at write number at, drives bursts into it, and returns when it is dead.
// With at = 0, it crashes at the first, second or fourth write of some kind instead.
func crashRun(t *T, w *World, rng *rand.Rand, at int, bursts []int, scope map[string]bool, led *Ledger) (kind string, err error) {
	sc := NewSched(rand.New(rand.NewSource(rng.Int63())))
	defer sc.Close()
	drop := rng.Intn(2) == 0
	kind = "none"
	atKind := crashKinds[rng.Intn(8)]
	skip := []int{0, 0, 0, 1, 3}[rng.Intn(5)]
	if at < 0 { // the first batch of all
		atKind, skip, drop, at = crashKinds[-at%8], 0, -at > 8, 0
	}
	sc.Decide = func(k int, op *Op) Verdict {
		if at == 0 && opKind(op.Key) == atKind && kind == "none" {
			skip--
		}
		if k == at && at > 0 || skip < 0 && kind == "none" {
			kind = opKind(op.Key)
			if drop {
				kind += " lost"
			} else {
				kind += " applied"
			}
			return Verdict{Crash: true, Act: Action{Drop: drop}}
		}
		return Verdict{}
	}
	in, err := w.BootWith(sc.Policy, nil)
	if err != nil {
		return kind, err
	}
	sc.mu.Lock()
	sc.OnCrash = in.markDead
	if sc.crashed {
		in.markDead()
	}
	sc.mu.Unlock()
	for _, m := range bursts {
		if in.crashed.Load() {
			break
		}
		burst(t, in, rng, m, scope, led)
	}
	for k := 0; k < 500 && !sc.Crashed(); k++ {
		time.Sleep(4 * time.Millisecond)
	}
	sc.CrashNow()
	in.Kill()
	return kind, nil
}

var crashKinds = []string{"sth", "checkpoint", "checkpoint", "data tile", "hash tile", "issuer", "hash index", "dedupe index"}

func runC04(t *T) {
	scope := cats(append(append(append([]string{}, headCats...), backingCats...), append(promiseCats, "restart-failed", "no-progress", "monitor", "promise-lost")...)...)
	starts := []uint64{0, 0, 10, 200, 250, 255, 256, 500, 511, 65300, 65530}
	n := t.N(100, 600)
	t.Parallel(n+16, 7, func(i int) {
		rng := t.Rand(fmt.Sprint("case", i))
		w := NewWorld(WorldOpt{Mask: []int{2, 5, 3}[i%3], FlushMs: []int{8, 25, 8, 300}[i%4]})
		defer w.Close()
		start := starts[i%len(starts)]
		if i >= n { // crash in the very first batch, before there was an empty one
			w.Opt.FlushMs, start = 300, 0
		}
		if start > 0 {
			w.Prefill(rng, start)
		}
		var led Ledger
		mon, _ := w.Monitor()
		for round := 0; round < 1+rng.Intn(3); round++ {
			// crash early (inside the first batches) or anywhere
			at := 1 + rng.Intn(8)
			switch rng.Intn(4) {
			case 3:
				at = 0
			case 0:
				at = 1 + rng.Intn(40)
			case 1:
				at = 1 + rng.Intn(160)
			}
			bursts := []int{1 + rng.Intn(60), 1 + rng.Intn(20), 1 + rng.Intn(120)}
			if rng.Intn(3) == 0 {
				bursts = []int{int(256-w.Aud.Size()%256) + rng.Intn(4), 3}
			}
			if i >= n && round == 0 {
				at = -1 - (i - n)
			}
			kind, err := crashRun(t, w, rng, at, bursts, scope, &led)
			if err != nil {
				t.report(scope, Finding{Cat: "restart-failed", Msg: fmt.Sprintf("instance does not start after crash round %d: %v", round, err)}, w)
				return
			}
			t.Eval(fmt.Sprintf("%s/start %s/round %d", kind, sizeClass(start), round))
			t.Sample(map[string]any{"start": start, "crash at write": at, "kind": kind, "bursts": bursts, "promises so far": len(led.All())})
			t.Count("crash kinds: "+kind, 1)
			// between crash and restart: monitors must be right
			if rng.Intn(2) == 0 {
				monitorSweep(t, w, mon, rng, scope, led.All(), 6)
			}
		}
		in, err := w.Boot()
		if err != nil {
			t.report(scope, Finding{Cat: "restart-failed", Msg: fmt.Sprintf("instance does not start after a crash: %v", err)}, w)
			return
		}
		monitorSweep(t, w, mon, rng, scope, led.All(), 10)
		// fewer or more entries than the crashed batch had, so that left-over tiles may or may not be overwritten
		for k := 0; k < 2; k++ {
			want := 1 + rng.Intn(5)
			subs := []*Sub{}
			for j := 0; j < want; j++ {
				subs = append(subs, w.PKI.Small(rng))
			}
			for _, s := range subs {
				if sct, r := in.MustClient(t, s, &led, scope); sct == nil {
					t.report(scope, Finding{Cat: "no-progress", Msg: fmt.Sprintf("restarted instance does not accept submissions: %v", r)}, w)
					return
				}
			}
			monitorSweep(t, w, mon, rng, scope, led.All(), 10)
		}
		w.Aud.mu.Lock()
		for _, p := range led.All() {
			for _, f := range w.Aud.checkPromise(p.Sub, p.SCT, w.LogID) {
				t.report(scope, Finding{Cat: "promise-lost", Msg: f.String()}, nil)
			}
		}
		w.Aud.mu.Unlock()
		in.Kill()
		t.Drain(scope, w)
		w.Aud.FullAudit(w.Get)
		t.Drain(scope, w)
		t.Count("promises rechecked", int64(len(led.All())))
	})
	if t.Get("scts") < 100 {
		t.Inconclusive("only %d SCTs", t.Get("scts"))
	}
}

// monitorSweep reads through the RFC 6962 API and judges everything against the published log. Category: monitor.
func monitorSweep(t *T, w *World, mon httpHandler, rng *rand.Rand, scope map[string]bool, promises []Promise, n int) {
	bad := func(f string, args ...any) {
		t.report(scope, Finding{Cat: "monitor", Msg: fmt.Sprintf(f, args...)}, w)
	}
	m := &MonClient{H: mon}
	sth, err := m.STH(w)
	if err != nil {
		bad("get-sth: %v", err)
		return
	}
	t.Count("monitor sweeps", 1)
	if sth.Size == 0 {
		return
	}
	a := w.Aud
	// the right edge and some random ranges
	for k := 0; k < n; k++ {
		var s, e uint64
		switch k {
		case 0:
			e = sth.Size - 1
			s = e - min(e-min(e, a.base), uint64(rng.Intn(300)))
		default:
			s = a.base + uint64(rng.Int63n(int64(sth.Size-a.base)))
			e = s + uint64(rng.Intn(40))
		}
		if err := m.CheckEntries(w, s, e, sth.Size); err != nil {
			bad("get-entries start=%d end=%d (tree size %d): %v", s, e, sth.Size, err)
		}
	}
	for k := 0; k < n; k++ {
		i := a.base + uint64(rng.Int63n(int64(sth.Size-a.base)))
		if k < 3 {
			i = sth.Size - 1 - min(uint64(rng.Intn(8)), sth.Size-1-a.base)
		}
		if err := m.CheckProofByHash(w, i, sth.Size); err != nil {
			bad("get-proof-by-hash index=%d tree_size=%d: %v", i, sth.Size, err)
		}
		if err := m.CheckEntryAndProof(w, i, sth.Size); err != nil {
			bad("get-entry-and-proof leaf_index=%d tree_size=%d: %v", i, sth.Size, err)
		}
	}
	sizes := a.Sizes()
	for k := 0; k < n && len(sizes) > 0; k++ {
		f := sizes[rng.Intn(len(sizes))]
		if f > sth.Size {
			continue
		}
		if err := m.CheckConsistency(w, f, sth.Size); err != nil {
			bad("get-sth-consistency first=%d second=%d: %v", f, sth.Size, err)
		}
	}
	for k := 0; k < 5 && len(promises) > 0; k++ {
		p := promises[rng.Intn(len(promises))]
		if p.SCT.Index >= sth.Size {
			bad("the published tree (size %d) does not cover an SCT issued earlier (index %d)", sth.Size, p.SCT.Index)
			continue
		}
		if err := m.CheckProofByHash(w, p.SCT.Index, sth.Size); err != nil {
			bad("promised entry %d: %v", p.SCT.Index, err)
		}
	}
}

func runC05(t *T) {
	scope := cats(append(append(append([]string{}, promiseCats...), backingCats...), "head-root", "head-shrink", "accepts-after-fault", "lock-kept", "restart-failed", "no-progress", "promise-lost", "monitor")...)
	kinds := []string{"data tile", "hash tile", "issuer", "hash index", "sth", "checkpoint", "dedupe index"}
	reps := t.N(5, 40)
	t.Parallel(len(kinds)*reps, 7, func(i int) {
		rng := t.Rand(fmt.Sprint("case", i))
		kind := kinds[i%len(kinds)]
		permanent := (i/len(kinds))%2 == 0
		applied := rng.Intn(3) == 0 // the write happened although it was reported as failed
		nth := 1 + rng.Intn(6)
		w := NewWorld(WorldOpt{Mask: []int{2, 5, 1}[i%3], FlushMs: []int{10, 30}[rng.Intn(2)]})
		defer w.Close()
		if s := []uint64{0, 5, 250, 255, 300, 65530}[rng.Intn(6)]; s > 0 {
			w.Prefill(rng, s)
		}
		sc := NewSched(rand.New(rand.NewSource(rng.Int63())))
		defer sc.Close()
		seen, failed := 0, 0
		faulted := make(chan struct{})
		sc.Decide = func(k int, op *Op) Verdict {
			if opKind(op.Key) != kind {
				return Verdict{}
			}
			seen++
			if seen < nth || (failed > 0 && !permanent) {
				return Verdict{}
			}
			failed++
			if failed == 1 {
				close(faulted)
			}
			return Verdict{Act: Action{Status: 403, Drop: !applied}}
		}
		in, err := w.BootWith(sc.Policy, nil)
		if err != nil {
			t.Inconclusive("boot: %v", err)
			return
		}
		var led Ledger
		hit := false
		for k := 0; k < 30 && !hit; k++ {
			// submit in the background: after the fault the answers may take seconds
			done := make(chan struct{})
			r := rand.New(rand.NewSource(rng.Int63()))
			go func() {
				burst(t, in, r, 1+r.Intn(40), scope, &led)
				close(done)
			}()
			select {
			case <-done:
			case <-faulted:
				hit = true
			}
			select {
			case <-faulted:
				hit = true
			default:
			}
		}
		if !hit {
			t.Count("fault not reached: "+kind, 1)
			return
		}
		// leadership must be given up
		lock := in.KV + "/lock"
		freed := false
		for k := 0; k < 3000 && !freed; k++ {
			freed = env.Consul.Holder(lock) == ""
			time.Sleep(10 * time.Millisecond)
		}
		if !freed {
			t.report(scope, Finding{Cat: "lock-kept", Msg: fmt.Sprintf("30 s after a refused %s write the instance still holds its lock", kind)}, w)
		}
		// nothing new may be accepted any more
		ch := make(chan struct{})
		go func() {
			defer close(ch)
			r := rand.New(rand.NewSource(rng.Int63()))
			for k := 0; k < 2; k++ {
				s := w.PKI.Small(r)
				w.Aud.Register(s)
				resp := call(in.H, "POST", s.Path(), s.Body(), 30*time.Second)
				if resp.Code == 200 && !in.crashed.Load() {
					t.report(scope, Finding{Cat: "accepts-after-fault", Msg: fmt.Sprintf("after a refused %s write (permanent=%v) the instance still accepts new entries: %v", kind, permanent, resp)}, w)
				}
				t.Count(fmt.Sprintf("answers after the fault: %d hung=%v", resp.Code, resp.Hung), 1)
			}
		}()
		<-ch
		t.Eval(fmt.Sprintf("%s/permanent=%v/applied=%v", kind, permanent, applied))
		t.Sample(map[string]any{"refused": kind, "nth": nth, "permanent": permanent, "applied anyway": applied, "SCTs before": len(led.All())})
		// the standby takes over
		in.Kill()
		in2, err := w.Boot()
		if err != nil {
			t.report(scope, Finding{Cat: "restart-failed", Msg: fmt.Sprintf("no instance starts after a refused %s write: %v", kind, err)}, w)
			return
		}
		for k := 0; k < 3; k++ {
			if sct, r := in2.MustClient(t, w.PKI.Small(rng), &led, scope); sct == nil {
				t.report(scope, Finding{Cat: "no-progress", Msg: fmt.Sprintf("the new instance does not accept submissions after a refused %s write: %v", kind, r)}, w)
				break
			}
		}
		mon, _ := w.Monitor()
		monitorSweep(t, w, mon, rng, scope, led.All(), 5)
		w.Aud.mu.Lock()
		for _, p := range led.All() {
			for _, f := range w.Aud.checkPromise(p.Sub, p.SCT, w.LogID) {
				t.report(scope, Finding{Cat: "promise-lost", Msg: f.String()}, nil)
			}
		}
		w.Aud.mu.Unlock()
		in2.Kill()
		t.Drain(scope, w)
		w.Aud.FullAudit(w.Get)
		t.Drain(scope, w)
	})
	t.mu.Lock()
	hitKinds := map[string]bool{}
	for c := range t.distinct {
		hitKinds[strings.SplitN(c, "/", 2)[0]] = true
	}
	t.mu.Unlock()
	if len(hitKinds) < len(kinds) {
		t.Inconclusive("only %d of %d kinds of write were faulted", len(hitKinds), len(kinds))
	}
}

var _ = bytes.Equal
