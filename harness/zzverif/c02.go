package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"
)

var (
	headCats    = []string{"head-sig", "head-shrink", "head-time", "head-root", "head-stale", "entry-changed", "entry-index", "heads-disagree", "immutable-overwritten"}
	backingCats = []string{"backing-data", "backing-tile", "backing-issuer", "backing-index", "backing-lost", "entry-content", "entry-index", "entry-alien", "head-root", "issuer-content", "immutable-overwritten", "hashes-lost"}
	promiseCats = []string{"sct-id", "sct-sig", "sct-early", "sct-entry", "sct-malformed"}
)

func init() {
	checks["C02"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one published tree head (get-sth or checkpoint) audited at the instant of its write against all earlier heads and the entries read from the data tiles; " +
			"distinct = (kind, tree size modulo 256 boundary class, batch size class, history so far: fresh/restarted/crashed) combinations",
		Run: runC02,
	}
	checks["C03"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one tree head audited for complete backing at the instant of its write, the parallel uploads having been completed one at a time in a random order; " +
			"distinct = (size class, batch size class, number of uploads in flight) combinations",
		Run: runC03,
	}
}

func sizeClass(n uint64) string {
	m := n % 256
	switch {
	case n == 0:
		return "0"
	case n%65536 == 0:
		return "k*65536"
	case m == 0:
		return "k*256"
	case m <= 2:
		return "k*256+1..2"
	case m >= 254:
		return "k*256-1..2"
	case n < 256:
		return "<256"
	case n < 65536:
		return "<65536"
	}
	return ">65536"
}

func batchClass(n uint64) string {
	switch {
	case n == 0:
		return "0"
	case n == 1:
		return "1"
	case n < 16:
		return "<16"
	case n < 100:
		return "<100"
	case n < 255:
		return "<255"
	case n == 255:
		return "255"
	}
	return ">255"
}

// watchHeads counts audited heads as evaluations.
func watchHeads(t *T, w *World, hist func() string) {
	var last uint64
	w.Aud.onHead = func(kind string, h Head) {
		d := uint64(0)
		if h.Size > last {
			d = h.Size - last
		}
		if kind == "checkpoint" {
			d = 0
		} else {
			last = h.Size
		}
		c := fmt.Sprintf("%s/%s/batch %s/%s", kind, sizeClass(h.Size), batchClass(d), hist())
		t.Eval(c)
		if d > 0 {
			t.Sample(map[string]any{"head": h.String(), "batch": d, "history": hist()})
		}
	}
}

// awaitHeads waits until n more heads of the kind get-sth were published.
func awaitHeads(w *World, n int, limit time.Duration) bool {
	cnt := func() int {
		w.Aud.mu.Lock()
		defer w.Aud.mu.Unlock()
		return len(w.Aud.sthLog)
	}
	start := cnt()
	for end := time.Now().Add(limit); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if cnt()-start >= n {
			return true
		}
	}
	return false
}

// quiescent checks that both kinds of head agree once nothing is being submitted.
func quiescent(t *T, w *World, scope map[string]bool) {
	if !awaitHeads(w, 4, 30*time.Second) {
		return
	}
	for i := 0; i < 200; i++ {
		sth, cp := w.Aud.Published()
		if sth.Size == cp.Size && sth.Root == cp.Root {
			return
		}
		if !awaitHeads(w, 1, 30*time.Second) {
			return
		}
		if i >= 12 {
			t.report(scope, Finding{Cat: "heads-disagree", Msg: fmt.Sprintf("idle log: get-sth stays at %v, checkpoint at %v", sth, cp)}, w)
			return
		}
	}
}

// burst submits n fresh certificates at once and waits for the answers; it returns how many got an SCT.
func burst(t *T, in *Inst, rng *rand.Rand, n int, scope map[string]bool, led *Ledger) int {
	subs := make([]*Sub, n)
	for i := range subs {
		if rng.Intn(6) == 0 {
			subs[i] = in.W.PKI.Random(rng)
		} else {
			subs[i] = in.W.PKI.Small(rng)
		}
	}
	return burstSubs(t, in, subs, scope, led)
}

func burstSubs(t *T, in *Inst, subs []*Sub, scope map[string]bool, led *Ledger) int {
	var wg sync.WaitGroup
	var mu sync.Mutex
	ok := 0
	for _, s := range subs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if sct, _ := in.Client(t, s, led, scope); sct != nil {
				mu.Lock()
				ok++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return ok
}

var edgeSizes = []uint64{0, 1, 2, 100, 254, 255, 256, 257, 300, 510, 511, 512, 513, 767, 65279, 65280, 65281, 65534, 65535, 65536, 65537, 66000, 131071}

func runC02(t *T) {
	scope := cats(headCats...)
	n := t.N(32, 240)
	t.Parallel(n, 5, func(i int) {
		rng := t.Rand(fmt.Sprint("world", i))
		// the previous instance may have run on a machine with a fast clock
		ahead := []time.Duration{0, 0, 0, 800 * time.Millisecond, 0, time.Hour, 0}[i%7]
		w := NewWorld(WorldOpt{Mask: []int{5, 2, 3}[i%3], FlushMs: []int{4, 15, 40, 120}[i%4], Ahead: ahead})
		defer w.Close()
		size := edgeSizes[rng.Intn(len(edgeSizes))]
		if i%4 == 0 {
			size = 0
		}
		if size > 0 {
			w.Prefill(rng, size)
		}
		hist := "fresh"
		watchHeads(t, w, func() string {
			if ahead > 0 {
				return hist + ", clock behind"
			}
			return hist
		})
		var led Ledger
		for boot := 0; boot < t.N(4, 6); boot++ {
			crash := rng.Intn(3) > 0
			var sc *Sched
			var in *Inst
			var err error
			if crash {
				sc = NewSched(rand.New(rand.NewSource(rng.Int63())))
				at := 1 + rng.Intn(60)
				coin := rng.Intn(2) == 0
				// half of the crashes are at the heads of a batch with entries
				kind := []string{"", "", "sth", "checkpoint"}[rng.Intn(4)]
				grown := false
				sc.Decide = func(k int, op *Op) Verdict {
					hit := k == at
					if kind != "" {
						grown = grown || opKind(op.Key) == "data tile"
						hit = grown && opKind(op.Key) == kind
					}
					if hit {
						t.Count("crashes at "+opKind(op.Key), 1)
					}
					return Verdict{Crash: hit, Act: Action{Drop: hit && coin}}
				}
				in, err = w.BootWith(sc.Policy, nil)
				if err == nil {
					inst := in
					sc.mu.Lock()
					sc.OnCrash = inst.markDead
					sc.mu.Unlock()
				}
			} else {
				in, err = w.BootWith(jitter(rand.New(rand.NewSource(rng.Int63())), 8*time.Millisecond), nil)
			}
			if err != nil {
				t.Count("boots refused", 1)
				t.Inconclusive("world %d (%d entries) boot %d: %v", i, size, boot, err)
				return
			}
			for k := 0; k < 3 && !in.crashed.Load(); k++ {
				m := []int{1, 2, 20, 60, 150, 300}[rng.Intn(6)]
				if burst(t, in, rng, m, scope, &led) == 0 && !crash {
					t.Count("bursts without an SCT", 1)
					break
				}
			}
			if crash {
				for k := 0; k < 50 && !sc.Crashed(); k++ {
					time.Sleep(4 * time.Millisecond)
				}
				sc.CrashNow()
				sc.Close()
				hist = "crashed"
			} else {
				quiescent(t, w, scope)
				if hist == "fresh" {
					hist = "restarted"
				}
			}
			in.Kill()
			time.Sleep(5 * time.Millisecond)
		}
		t.Drain(scope, w)
		w.Aud.FullAudit(w.Get)
		t.Drain(scope, w)
	})
	if canStepClock {
		clockSteps(t, scope, t.N(6, 48))
	}
	if t.Get("heads audited") < 100 {
		t.Inconclusive("only %d heads observed", t.Get("heads audited"))
	}
}

// clockSteps runs logs while the wall clock is stepped back and forth: at storage operations, so between sequencing an
// entry, signing its head and signing the checkpoint, and between instances.
func clockSteps(t *T, scope map[string]bool, n int) {
	defer setWallClock(0)
	t.Parallel(n, 3, func(i int) {
		rng := t.Rand(fmt.Sprint("clock", i))
		w := NewWorld(WorldOpt{Mask: 5, FlushMs: []int{10, 40, 90}[i%3]})
		defer w.Close()
		if i%2 == 0 {
			w.Prefill(rng, edgeSizes[rng.Intn(len(edgeSizes)-5)])
		}
		hist := "clock stepped"
		watchHeads(t, w, func() string { return hist })
		var led Ledger
		for boot := 0; boot < 3; boot++ {
			j := jitter(rand.New(rand.NewSource(rng.Int63())), 6*time.Millisecond)
			var mu sync.Mutex
			crng := rand.New(rand.NewSource(rng.Int63()))
			in, err := w.BootWith(func(op *Op) Action {
				mu.Lock()
				x := crng.Intn(12)
				small := time.Duration(crng.Intn(800)-400) * time.Millisecond
				mu.Unlock()
				if x < 5 && op.Method == "PUT" {
					setWallClock([]time.Duration{0, small, -3 * time.Second, 2 * time.Second, []time.Duration{-time.Hour, time.Hour}[i%2]}[x])
					t.Count("steps of the wall clock, at "+opKind(op.Key), 1)
				}
				return j(op)
			}, nil)
			if err != nil {
				t.Inconclusive("clock world %d boot %d: %v", i, boot, err)
				return
			}
			for k := 0; k < 6; k++ {
				burst(t, in, rng, []int{1, 3, 20, 60}[rng.Intn(4)], scope, &led)
			}
			quiescent(t, w, scope)
			in.Kill()
			hist = "clock stepped, restarted"
		}
		t.Drain(scope, w)
		w.Aud.FullAudit(w.Get)
		t.Drain(scope, w)
	})
}

func runC03(t *T) {
	scope := cats(backingCats...)
	n := t.N(18, 160)
	t.Parallel(n, 6, func(i int) {
		rng := t.Rand(fmt.Sprint("world", i))
		w := NewWorld(WorldOpt{Mask: []int{5, 1, 3, 32}[i%4], FlushMs: []int{10, 30, 80}[i%3]})
		defer w.Close()
		if size := edgeSizes[rng.Intn(len(edgeSizes))]; size > 0 && i%3 > 0 {
			w.Prefill(rng, size)
		}
		sc := NewSched(rand.New(rand.NewSource(rng.Int63())))
		defer sc.Close()
		watchHeads(t, w, func() string { return "uploads in flight " + batchClass(uint64(sc.Depth)) })
		in, err := w.BootWith(sc.Policy, nil)
		if err != nil {
			t.Inconclusive("world %d: %v", i, err)
			return
		}
		var led Ledger
		for k := 0; k < t.N(4, 6); k++ {
			m := []int{1, 3, 30, 100, 260}[rng.Intn(5)]
			burst(t, in, rng, m, scope, &led)
		}
		awaitHeads(w, 1, 10*time.Second)
		t.Drain(scope, w)
		w.Aud.FullAudit(w.Get)
		t.Drain(scope, w)
		for k, v := range sc.Kinds {
			t.Count("writes reordered: "+k, int64(v))
		}
	})
	readFaults(t, scope, t.N(14, 84))
	if t.Get("heads audited") < 50 || t.Get("scts") < 100 {
		t.Inconclusive("only %d heads and %d SCTs observed", t.Get("heads audited"), t.Get("scts"))
	}
}
