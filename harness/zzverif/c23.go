package main

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	checks["C23"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one submission followed until its SCT, or one published head judged for freshness and progress; " +
			"distinct = (arrival pattern, burst size class or arrival rate, flush interval, storage speed, phase) combinations",
		Run: runC23,
	}
}

// liveTicks counts how often this process got to run; it tells a stalled log from a stalled machine.
var liveTicks atomic.Int64
var liveOnce sync.Once

const tickEvery = 20 * time.Millisecond

func startTicks() {
	liveOnce.Do(func() {
		go func() {
			for {
				time.Sleep(tickEvery)
				liveTicks.Add(1)
			}
		}()
	})
}

type seenHead struct {
	Head
	wall int64 // ms, when the write reached storage
}

// headWatch judges the sequence of published tree heads.
type headWatch struct {
	mu    sync.Mutex
	heads []seenHead
	bad   string
	lax   bool // the clock is being stepped, so timestamps are only required to advance
}

// add records a head; now is a time (ms) when nothing newer had been published yet.
func (hw *headWatch) add(h Head, now int64) {
	hw.mu.Lock()
	defer hw.mu.Unlock()
	if n := len(hw.heads); hw.lax {
		if n > 0 && h.TS <= hw.heads[n-1].TS && hw.bad == "" {
			hw.bad = fmt.Sprintf("the head %v does not advance on the timestamp of %v", h, hw.heads[n-1].Head)
		}
	} else if n >= 2 && h.TS < uint64(hw.heads[n-2].wall) && hw.bad == "" {
		// signed before the last but one head was even published
		hw.bad = fmt.Sprintf("the head %v was published after one that reached storage at %d, two heads later its timestamp is still older", h, hw.heads[n-2].wall)
	}
	if !hw.lax && h.TS > uint64(now)+1000 && hw.bad == "" {
		hw.bad = fmt.Sprintf("the head %v published at %d is from the future", h, now)
	}
	hw.heads = append(hw.heads, seenHead{h, now})
}

func (hw *headWatch) count() int {
	hw.mu.Lock()
	defer hw.mu.Unlock()
	return len(hw.heads)
}

func (hw *headWatch) since(n int) []seenHead {
	hw.mu.Lock()
	defer hw.mu.Unlock()
	return append([]seenHead{}, hw.heads[n:]...)
}

// await waits for n more heads; silent reports that none came although the process was running all the time.
func (hw *headWatch) await(n int, flush time.Duration) (ok, silent bool) {
	limit := 10 * time.Second
	if 40*flush > limit {
		limit = 40 * flush
	}
	start := hw.count()
	last := start
	began, ticks := time.Now(), liveTicks.Load()
	for hard := time.Now().Add(4 * limit); ; time.Sleep(2 * time.Millisecond) {
		c := hw.count()
		if c-start >= n {
			return true, false
		}
		if c != last {
			last, began, ticks = c, time.Now(), liveTicks.Load()
		}
		if el := time.Since(began); el > limit && (liveTicks.Load()-ticks)*10 > int64(el/tickEvery)*6 {
			return false, true
		}
		if time.Now().After(hard) {
			return false, false
		}
	}
}

func runC23(t *T) {
	startTicks()
	scope := cats(append(append([]string{}, promiseCats...), "stuck", "dup-index", "gap", "head-fresh", "head-silent", "entry-index", "head-shrink", "head-time", "entry-alien", "sct-index-mismatch")...)
	type job struct {
		kind  string
		flush int
		k     int
	}
	var jobs []job
	flushes := []int{1, 7, 25, 100, 400}
	for r := 0; r < t.N(1, 8); r++ {
		// the slow ones first
		jobs = append(jobs, job{"trickle", 300, r}, job{"stalled storage", 25, r}, job{"long flush", 5600, r}, job{"trickle", 100, r})
		for k, f := range flushes {
			jobs = append(jobs, job{"bursts", f, r*5 + k}, job{"closed loop", f, r*5 + k}, job{"abandoned", f, r*5 + k}, job{"mixed", f, r*5 + k}, job{"together", f, r*5 + k})
		}
		jobs = append(jobs, job{"trickle", 20, r}, job{"slow storage", 20, r}, job{"slow storage", 100, r}, job{"directory", 10, r}, job{"directory", 60, r}, job{"large burst", 50, r})
	}
	t.Parallel(len(jobs), 7, func(i int) {
		c23world(t, jobs[i].kind, jobs[i].flush, jobs[i].k, t.Rand(fmt.Sprint("world", i)), scope)
	})
	if canStepClock {
		// all logs of this process share the clock
		t.Parallel(t.N(4, 24), 4, func(i int) {
			c23world(t, "clock steps", []int{30, 300, 100, 700}[i%4], i, t.Rand(fmt.Sprint("clock", i)), scope)
		})
		setWallClock(0)
	}
	if t.Get("submissions answered with an SCT") < 3000 || t.Get("heads while idle") < 100 || t.Get("heads under load") < 200 {
		t.Inconclusive("only %d answers, %d idle heads, %d heads under load", t.Get("submissions answered with an SCT"), t.Get("heads while idle"), t.Get("heads under load"))
	}
}

var burstSizes = []int{1, 2, 3, 199, 200, 201, 202, 254, 255, 256, 257, 454, 455, 456, 509, 510, 511, 600, 765, 766}

func c23world(t *T, kind string, flush, k int, rng *rand.Rand, scope map[string]bool) {
	fs := kind == "directory"
	w := NewWorld(WorldOpt{Mask: []int{5, 3, 2}[k%3], FlushMs: flush, FS: fs})
	defer w.Close()
	hw := &headWatch{lax: kind == "clock steps"}
	start := uint64(0)
	if !fs && rng.Intn(2) == 0 {
		start = edgeSizes[rng.Intn(len(edgeSizes))]
		if start > 0 {
			w.Prefill(rng, start)
		}
	}
	w.Aud.onHead = func(k string, h Head) {
		if k == "sth" {
			hw.add(h, time.Now().UnixMilli())
		}
	}
	var slow atomic.Int64 // ms a write takes at most
	var held atomic.Bool
	jrng := rand.New(rand.NewSource(rng.Int63()))
	var jmu sync.Mutex
	policy := func(op *Op) Action {
		if op.Method != "PUT" {
			return Action{}
		}
		for held.Load() {
			time.Sleep(5 * time.Millisecond)
		}
		if s := slow.Load(); s > 0 {
			jmu.Lock()
			d := time.Duration(jrng.Int63n(s*1000)) * time.Microsecond
			jmu.Unlock()
			return Action{Delay: d}
		}
		return Action{}
	}
	in, err := w.BootWith(policy, nil)
	if err != nil {
		t.Inconclusive("%s: %v", kind, err)
		return
	}
	if fs {
		// there is no server that sees the writes, the files are polled instead
		stop := make(chan struct{})
		defer close(stop)
		go func() {
			var last Head
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Millisecond):
				}
				now := time.Now().UnixMilli()
				d, ok := w.Get("ct/v1/get-sth")
				if !ok {
					continue
				}
				if h, err := verifySTH(d, &w.Key.PublicKey); err == nil && h != last {
					if last.TS > h.TS || last.Size > h.Size {
						t.report(scope, Finding{Cat: "head-shrink", Msg: fmt.Sprintf("get-sth goes from %v to %v", last, h)}, w)
					}
					last = h
					hw.add(h, now)
				}
			}
		}()
	}
	fl := time.Duration(flush) * time.Millisecond
	var led Ledger
	var clean atomic.Bool
	clean.Store(true)
	var submitted atomic.Int64
	var stuck atomic.Bool
	// one follows a submission until it has an SCT
	one := func(s *Sub, class string) {
		submitted.Add(1)
		w.Aud.Register(s)
		for try := 0; try < 12; try++ {
			r := in.Submit(s)
			if r.Code == 200 && r.Panic == "" && !r.Hung {
				sct, err := parseSCT(r.Body)
				if err != nil {
					t.report(scope, Finding{Cat: "sct-malformed", Msg: err.Error()}, w)
					return
				}
				if !fs {
					for _, f := range w.Aud.CheckPromise(s, sct, w.LogID) {
						t.report(scope, f, w)
					}
				}
				led.Add(Promise{s, sct})
				t.Count("submissions answered with an SCT", 1)
				t.Eval(fmt.Sprintf("%s/flush %d/%s/answered at attempt %d", kind, flush, class, try+1))
				return
			}
			clean.Store(false)
			t.Count(fmt.Sprintf("submissions answered %d", r.Code), 1)
			if r.Panic != "" || r.Hung || r.Code != 503 {
				t.report(scope, Finding{Cat: "stuck", Msg: fmt.Sprintf("%s, flush interval %d ms: a valid submission (%s) is not answered with an SCT although storage works: %v", kind, flush, s.Kind, r)}, w)
				stuck.Store(true)
				return
			}
			if stuck.Load() {
				return
			}
		}
		t.report(scope, Finding{Cat: "stuck", Msg: fmt.Sprintf("%s, flush interval %d ms: a valid submission (%s) is answered 503 twelve times in a row", kind, flush, s.Kind)}, w)
		stuck.Store(true)
	}
	fresh := func() *Sub {
		if rng.Intn(8) == 0 {
			return w.PKI.Random(rng)
		}
		return w.PKI.Small(rng)
	}
	many := func(n int, class string) {
		subs := make([]*Sub, n)
		for i := range subs {
			subs[i] = fresh()
		}
		var wg sync.WaitGroup
		for _, s := range subs {
			wg.Add(1)
			go func() { defer wg.Done(); one(s, class) }()
		}
		wg.Wait()
	}
	silent := func(phase string, n int) bool {
		_, s := hw.await(n, fl)
		if s {
			t.report(scope, Finding{Cat: "head-silent", Msg: fmt.Sprintf("%s, flush interval %d ms: no tree head is published %s although storage works", kind, flush, phase)}, w)
		}
		return s
	}
	before := hw.count()
	switch kind {
	case "bursts":
		for b := 0; b < t.N(4, 8) && !stuck.Load(); b++ {
			n := burstSizes[(k*7+b*3+rng.Intn(3))%len(burstSizes)]
			many(n, fmt.Sprintf("burst of %d", n))
			if rng.Intn(2) == 0 {
				time.Sleep(time.Duration(rng.Int63n(int64(2*fl) + 1)))
			}
		}
	case "large burst":
		many(1300+rng.Intn(400), "burst >1300")
	case "closed loop":
		clients := []int{1, 2, 7, 40, 120}[k%5]
		var wg sync.WaitGroup
		stop := make(chan struct{})
		pool := make(chan *Sub)
		go func() {
			for {
				select {
				case pool <- fresh():
				case <-stop:
					return
				}
			}
		}()
		for c := 0; c < clients; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !stuck.Load() {
					select {
					case s := <-pool:
						one(s, fmt.Sprintf("%d clients", clients))
					case <-stop:
						return
					}
				}
			}()
		}
		silent("under sustained load", 4)
		time.Sleep(time.Duration(t.N(700, 3000)) * time.Millisecond)
		silent("under sustained load", 2)
		close(stop)
		wg.Wait()
	case "clock steps", "trickle":
		if kind == "clock steps" {
			quit := make(chan struct{})
			defer close(quit)
			go func() {
				r := rand.New(rand.NewSource(int64(k)))
				for began := time.Now(); ; {
					if time.Since(began) > 3*time.Second {
						// and then it stays behind
						setWallClock(-2 * time.Hour)
						return
					}
					select {
					case <-quit:
						return
					case <-time.After(time.Duration(1+r.Intn(2*flush)) * time.Millisecond):
						setWallClock([]time.Duration{0, -time.Hour, time.Hour, time.Duration(r.Intn(10000)-5000) * time.Millisecond}[r.Intn(4)])
						t.Count("steps of the wall clock", 1)
					}
				}
			}()
		}
		// arrivals just faster than the flush interval, so that the log is never idle for that long
		part := []float64{0.9, 0.45, 0.97}[rng.Intn(3)]
		period := time.Duration(float64(fl) * part)
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			tk := time.NewTicker(period)
			defer tk.Stop()
			for {
				select {
				case <-stop:
					return
				case <-tk.C:
					s := fresh()
					wg.Add(1)
					go func() { defer wg.Done(); one(s, fmt.Sprintf("one per %.2f flush intervals", part)) }()
				}
			}
		}()
		for n := 0; n < 3; n++ {
			if silent("while submissions keep arriving", 2) {
				break
			}
		}
		end := time.Now().Add(time.Duration(t.N(3, 12)) * time.Second)
		if kind == "clock steps" {
			end = end.Add(3 * time.Second)
		}
		for time.Now().Before(end) && !silent("while submissions keep arriving", 1) {
		}
		close(stop)
		wg.Wait()
	case "abandoned":
		for b := 0; b < t.N(3, 8) && !stuck.Load(); b++ {
			var wg sync.WaitGroup
			// clients that go away while they wait
			for c := 0; c < 60; c++ {
				s := fresh()
				w.Aud.Register(s)
				after := time.Duration(rng.Int63n(int64(2*fl) + 1))
				wg.Add(1)
				go func() {
					defer wg.Done()
					quit := make(chan struct{})
					tm := time.AfterFunc(after, func() { close(quit) })
					defer tm.Stop()
					callQ(in.H, "POST", s.Path(), s.Body(), 0, quit)
				}()
			}
			clean.Store(false)
			many(80+rng.Intn(200), "next to clients that go away")
			wg.Wait()
		}
	case "mixed":
		for b := 0; b < t.N(3, 8) && !stuck.Load(); b++ {
			var wg sync.WaitGroup
			for c := 0; c < 40; c++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					in.H0("POST", "/ct/v1/add-chain", []byte(`{"chain":["AAAA"]}`))
				}()
			}
			if all := led.All(); len(all) > 0 {
				for c := 0; c < 40; c++ {
					p := all[rng.Intn(len(all))]
					wg.Add(1)
					go func() { defer wg.Done(); in.Submit(p.Sub) }()
				}
			}
			many(100+rng.Intn(250), "next to invalid and repeated submissions")
			wg.Wait()
		}
	case "together":
		// several clients submit the same certificate at the same time
		clean.Store(false)
		missed := 0
		for b := 0; b < t.N(6, 20) && !stuck.Load() && missed < 3; b++ {
			began, ticks, heads := time.Now(), liveTicks.Load(), hw.count()
			var wg sync.WaitGroup
			var refused, served atomic.Int64
			for c := 0; c < 1+rng.Intn(12); c++ {
				s := fresh()
				w.Aud.Register(s)
				for d := 0; d < 1+rng.Intn(8); d++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						switch r := in.Submit(s); {
						case r.Code == 200 && r.Panic == "" && !r.Hung:
							if sct, err := parseSCT(r.Body); err != nil {
								t.report(scope, Finding{Cat: "sct-malformed", Msg: err.Error()}, w)
							} else if !fs {
								for _, f := range w.Aud.CheckPromise(s, sct, w.LogID) {
									t.report(scope, f, w)
								}
							}
							served.Add(1)
							t.Count("copies of one certificate answered with an SCT", 1)
						case r.Code == 503 && !r.Hung:
							refused.Add(1)
						default:
							t.report(scope, Finding{Cat: "stuck", Msg: fmt.Sprintf("%s: one of several simultaneous submissions of a certificate is not answered with an SCT: %v", kind, r)}, w)
						}
					}()
				}
			}
			wg.Wait()
			el := time.Since(began)
			if refused.Load() > 0 && hw.count()-heads >= 2 && (liveTicks.Load()-ticks)*10 > int64(el/tickEvery)*6 {
				missed++ // with less than a hundred submissions nothing is full, and the log was running
			}
			t.Eval(fmt.Sprintf("%s/flush %d/%d served", kind, flush, min(8, served.Load()/8*8)))
		}
		if missed >= 3 {
			t.report(scope, Finding{Cat: "stuck", Msg: fmt.Sprintf("%s, flush interval %d ms: of a few simultaneous submissions of the same certificates some are answered 503, %d times, although the log keeps publishing", kind, flush, missed)}, w)
		}
	case "slow storage":
		slow.Store(int64(20 + rng.Intn(80)))
		for b := 0; b < t.N(2, 4) && !stuck.Load(); b++ {
			n := burstSizes[rng.Intn(len(burstSizes))]
			many(n, fmt.Sprintf("burst of %d", n))
		}
		slow.Store(0)
	case "stalled storage":
		many(10, "before")
		held.Store(true)
		clean.Store(false)
		var wg sync.WaitGroup
		n := 300 + rng.Intn(800)
		for c := 0; c < n; c++ {
			s := fresh()
			w.Aud.Register(s)
			wg.Add(1)
			go func() { defer wg.Done(); in.Submit(s) }()
		}
		wg.Wait() // all of them have timed out
		held.Store(false)
		if !silent("after storage came back", 3) {
			many(300, "after storage came back")
		}
	case "long flush":
		many(3, "flush interval above the client timeout")
	case "directory":
		for b := 0; b < t.N(3, 6) && !stuck.Load(); b++ {
			n := burstSizes[rng.Intn(len(burstSizes))]
			many(n, fmt.Sprintf("burst of %d", n))
		}
	}
	for _, h := range hw.since(before) {
		t.Eval(fmt.Sprintf("head under load/%s/flush %d/%s", kind, flush, sizeClass(h.Size)))
		t.Count("heads under load", 1)
	}
	// nothing is submitted any more: heads keep coming, unchanged in size
	if kind != "long flush" {
		silent("while idle", 2)
	}
	idle := hw.count()
	if kind != "long flush" && !silent("while idle", 6) {
		hs := hw.since(idle)
		for i, h := range hs {
			t.Eval(fmt.Sprintf("idle head/%s/flush %d/%s", kind, flush, sizeClass(h.Size)))
			t.Count("heads while idle", 1)
			if !stuck.Load() && kind != "abandoned" && h.Size != hs[0].Size {
				t.report(scope, Finding{Cat: "gap", Msg: fmt.Sprintf("idle log grows from %v to %v", hs[0].Head, h.Head)}, w)
			}
			if i >= 2 && !hw.lax && h.TS < uint64(hs[i-2].wall) {
				t.report(scope, Finding{Cat: "head-fresh", Msg: fmt.Sprintf("idle log: head %v is older than the publication of the last but one head at %d", h.Head, hs[i-2].wall)}, w)
			}
		}
	}
	hw.mu.Lock()
	if hw.bad != "" {
		t.report(scope, Finding{Cat: "head-fresh", Msg: fmt.Sprintf("%s, flush interval %d ms: %s", kind, flush, hw.bad)}, w)
	}
	hw.mu.Unlock()
	// distinct submissions have distinct indices, and nothing else takes up space
	all := led.All()
	at := map[uint64]*Sub{}
	for _, p := range all {
		if o := at[p.SCT.Index]; o != nil && o.FP != p.Sub.FP {
			t.report(scope, Finding{Cat: "dup-index", Msg: fmt.Sprintf("%s: submissions %d and %d both got SCTs for index %d", kind, o.ID, p.Sub.ID, p.SCT.Index)}, w)
		}
		at[p.SCT.Index] = p.Sub
	}
	if d, ok := w.Get("ct/v1/get-sth"); ok && !stuck.Load() {
		h, err := verifySTH(d, &w.Key.PublicKey)
		if err != nil {
			t.report(scope, Finding{Cat: "head-fresh", Msg: err.Error()}, w)
		} else if clean.Load() && h.Size != start+uint64(submitted.Load()) {
			t.report(scope, Finding{Cat: "gap", Msg: fmt.Sprintf("%s, flush interval %d ms: after %d distinct submissions, all answered with an SCT at once, the log grew from %d to %d", kind, flush, submitted.Load(), start, h.Size)}, w)
		} else if clean.Load() {
			for i := start; i < h.Size; i++ {
				if at[i] == nil {
					t.report(scope, Finding{Cat: "gap", Msg: fmt.Sprintf("%s: no submission was given index %d below the tree size %d", kind, i, h.Size)}, w)
					break
				}
			}
			t.Count("logs filled without gaps", 1)
		}
	}
	t.Drain(scope, w)
	in.Kill()
}

// H0 sends a request and drops the answer.
func (in *Inst) H0(method, target string, body []byte) *Resp {
	return callQ(in.H, method, target, body, 0, in.dead)
}
