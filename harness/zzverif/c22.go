package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/mod/sumdb/tlog"

	"itko.dev/internal/sunlight"
)

func init() {
	checks["C22"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one tree head published at a huge tree size and audited at its write (tiles, roots, index records), or one proof/entry query judged there, or one tile path compared with the reference; " +
			"distinct = (what, magnitude of the tree size, levels of tiles completed by the step, fresh/restarted) combinations",
		Run: runC22,
	}
}

const maxTree = uint64(1) << 40

func magnitude(n uint64) string {
	for k := uint(8); k <= 40; k += 8 {
		p := uint64(1) << k
		if n == p {
			return fmt.Sprintf("=2^%d", k)
		}
		if n < p {
			return fmt.Sprintf("<2^%d", k)
		}
	}
	return ">2^40"
}

// completed says how many levels of tiles became complete when the tree grew from a to b.
func completed(a, b uint64) int {
	k := 0
	for k < 5 && a>>(8*uint(k+1)) != b>>(8*uint(k+1)) {
		k++
	}
	return k
}

// hugeSize picks a starting size; d is the distance to the boundary that growing will cross (0: none in particular).
func hugeSize(rng *rand.Rand, i int) (size, d uint64, kind string) {
	k := uint(8 * (1 + (i/5)%5)) // 8..40
	switch i % 5 {
	case 0, 1: // shortly before the power itself
		d = 1 + uint64(rng.Intn(200))
		size, kind = 1<<k-d, fmt.Sprintf("2^%d-d", k)
	case 2: // shortly before a multiple
		d = 1 + uint64(rng.Intn(200))
		if k == 40 {
			k = 32
		}
		m := 2 + uint64(rng.Int63n(int64(maxTree>>k)-1))
		size, kind = m<<k-d, fmt.Sprintf("m*2^%d-d", k)
	case 3: // at or shortly after a multiple
		if k == 40 {
			k = 24
		}
		m := 1 + uint64(rng.Int63n(int64(maxTree>>k)-1))
		size, kind = m<<k+uint64(rng.Intn(3)), fmt.Sprintf("m*2^%d+d", k)
	default:
		size, kind = 5000+uint64(rng.Int63n(int64(maxTree)-100000)), "random"
		if rng.Intn(2) == 0 {
			size = 5000 + uint64(rng.Int63n(1<<(16+uint(rng.Intn(24)))))
		}
	}
	return
}

func runC22(t *T) {
	scope := cats(append(append(append([]string{}, headCats...), backingCats...), append(promiseCats, "huge-proof", "huge-entry", "huge-refused", "huge-progress", "huge-dedupe", "dedupe-lost", "dedupe-format", "hashes-format")...)...)
	t.Parallel(4, 4, func(i int) { c22paths(t, t.Rand(fmt.Sprint("paths", i))) })
	n := t.N(30, 400)
	t.Parallel(n, 8, func(i int) {
		c22world(t, i, scope)
	})
	if t.Get("heads at huge sizes") < 60 || t.Get("proofs at huge sizes") < 300 {
		t.Inconclusive("only %d heads and %d proofs observed at huge sizes", t.Get("heads at huge sizes"), t.Get("proofs at huge sizes"))
	}
}

// c22paths compares tile paths with the reference for random and extreme coordinates.
func c22paths(t *T, rng *rand.Rand) {
	n := t.N(3000, 100000)
	for k := 0; k < n; k++ {
		level := rng.Intn(7) - 1
		max := int64(1) << 32 // tiles of a tree of 2^40 leaves
		if level > 0 {
			max >>= 8 * uint(level)
		}
		if max < 1 {
			max = 1
		}
		var nn int64
		switch rng.Intn(4) {
		case 0:
			nn = rng.Int63n(max)
		case 1:
			nn = rng.Int63n(1 << uint(1+rng.Intn(32)))
		case 2:
			p := []int64{1000, 1000000, 1000000000}[rng.Intn(3)]
			nn = p*int64(1+rng.Intn(4)) - 2 + int64(rng.Intn(4))
		default:
			nn = max - 1 - int64(rng.Intn(3))
		}
		if nn < 0 || nn >= max {
			nn = max - 1
		}
		w := 256
		if rng.Intn(2) == 0 {
			w = 1 + rng.Intn(256)
		}
		got := sunlight.Path(tlog.Tile{H: 8, L: level, N: nn, W: w})
		want := TileID{level, uint64(nn), w}.Path()
		if got != want {
			t.Violate("tile-path", "the path of tile level %d number %d width %d is %q, not %q", level, nn, w, got, want)
			return
		}
		full := "partial"
		if w == 256 {
			full = "full"
		}
		t.Eval(fmt.Sprintf("path/level %d/%d groups/%s", level, len(fmt.Sprint(nn))/3, full))
	}
}

func c22world(t *T, i int, scope map[string]bool) {
	rng := t.Rand(fmt.Sprint("world", i))
	size, d, kind := hugeSize(rng, i)
	w := NewWorld(WorldOpt{Mask: []int{5, 2, 8, 32}[i%4], FlushMs: []int{5, 20, 60}[i%3]})
	defer w.Close()
	w.Prefill(rng, size)
	var hist atomic.Value
	hist.Store("fresh")
	last := size
	w.Aud.onHead = func(k string, h Head) {
		c := 0
		if k == "sth" && h.Size > last {
			c = completed(last, h.Size)
			last = h.Size
			t.Count("heads at huge sizes", 1)
			t.Count(fmt.Sprintf("steps completing %d levels of tiles", c), 1)
			if c >= 2 {
				t.Sample(map[string]any{"start": size, "kind": kind, "head": h.String(), "levels completed": c})
			}
		}
		t.Eval(fmt.Sprintf("%s/%s/%d levels/%s", k, magnitude(h.Size), c, hist.Load()))
	}
	var led Ledger
	h, _ := w.Monitor()
	mc := &MonClient{H: h}
	room := func() uint64 {
		w.Aud.mu.Lock()
		defer w.Aud.mu.Unlock()
		return maxTree - w.Aud.tree.Size()
	}
	for boot := 0; boot < t.N(2, 3); boot++ {
		in, err := w.BootWith(jitter(rand.New(rand.NewSource(rng.Int63())), 5*time.Millisecond), nil)
		if err != nil {
			t.report(scope, Finding{Cat: "huge-refused", Msg: fmt.Sprintf("a valid log of %d entries is refused at startup: %v", w.Aud.Size(), err)}, w)
			return
		}
		if boot > 0 {
			hist.Store("restarted")
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		qrng := rand.New(rand.NewSource(rng.Int63()))
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				c22query(t, w, mc, qrng, size, scope, "growing")
				time.Sleep(3 * time.Millisecond)
			}
		}()
		bursts := []uint64{1, uint64(1 + rng.Intn(40)), uint64(100 + rng.Intn(200))}
		if d > 0 && boot == 0 {
			bursts = []uint64{d, uint64(1 + rng.Intn(5)), uint64(200 + rng.Intn(80))}
			if rng.Intn(2) == 0 {
				bursts = []uint64{d + uint64(rng.Intn(250)), 1}
			}
		}
		for _, b := range bursts {
			if r := room(); b > r {
				b = r
			}
			if b == 0 {
				continue
			}
			got := burst(t, in, rng, int(b), scope, &led)
			if uint64(got) != b {
				t.report(scope, Finding{Cat: "huge-progress", Msg: fmt.Sprintf("%d of %d submissions got an SCT on a log that started with %d entries", got, b, size)}, w)
			}
		}
		close(stop)
		wg.Wait()
		// resubmissions return the same SCT
		all := led.All()
		for k := 0; k < 6 && len(all) > 0; k++ {
			p := all[rng.Intn(len(all))]
			s2, r := in.Client(t, p.Sub, nil, scope)
			if s2 == nil {
				t.report(scope, Finding{Cat: "huge-dedupe", Msg: fmt.Sprintf("resubmitting the entry at index %d: %v", p.SCT.Index, r)}, w)
				continue
			}
			if s2.Index != p.SCT.Index || s2.Timestamp != p.SCT.Timestamp {
				t.report(scope, Finding{Cat: "huge-dedupe", Msg: fmt.Sprintf("resubmitting the entry at index %d (timestamp %d) got an SCT for index %d (timestamp %d)", p.SCT.Index, p.SCT.Timestamp, s2.Index, s2.Timestamp)}, w)
			}
			t.Eval("resubmission/" + magnitude(s2.Index) + "/" + hist.Load().(string))
		}
		quiescent(t, w, scope)
		for k := 0; k < t.N(30, 60); k++ {
			c22query(t, w, mc, rng, size, scope, hist.Load().(string))
		}
		t.Drain(scope, w)
		if boot == 0 && rng.Intn(2) == 0 {
			in.Quiesce()
		} else {
			in.Kill()
		}
	}
	// every entry is retrievable where its SCT says
	all := led.All()
	for k := 0; k < 10 && len(all) > 0; k++ {
		p := all[rng.Intn(len(all))]
		r := mc.get(fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", p.SCT.Index, p.SCT.Index))
		if err := sameServed(r.Body, p.Sub.entryFor(p.SCT.Timestamp, p.SCT.Index), p.Sub); r.Code != 200 || err != nil {
			t.report(scope, Finding{Cat: "huge-entry", Msg: fmt.Sprintf("get-entries of index %d: %.80v: %v", p.SCT.Index, r, err)}, w)
		}
	}
	w.Aud.FullAudit(w.Get)
	w.Aud.DedupeAudit(w.Get)
	t.Drain(scope, w)
	if sth, _ := w.Aud.Published(); sth.Size == maxTree {
		t.Count("logs grown to exactly 2^40 entries", 1)
	}
}

// c22query asks one question that a monitor at this tree size must answer. start is the size the log was built with.
func c22query(t *T, w *World, mc *MonClient, rng *rand.Rand, start uint64, scope map[string]bool, hist string) {
	// the checkpoint is what the monitor works from; it is written after get-sth
	w.Aud.mu.Lock()
	size := w.Aud.cp.Size
	if w.Aud.sth.Size < size {
		size = w.Aud.sth.Size
	}
	ok := !w.Aud.broken
	base := w.Aud.base
	w.Aud.mu.Unlock()
	if !ok || size <= base {
		return
	}
	sizes := []uint64{}
	for _, s := range w.Aud.Sizes() {
		if s <= size && s > base {
			sizes = append(sizes, s)
		}
	}
	if len(sizes) == 0 {
		return
	}
	sz := sizes[rng.Intn(len(sizes))]
	real := func() uint64 { return base + uint64(rng.Int63n(int64(sz-base))) }
	var err error
	var what, cat string
	cat = "huge-proof"
	switch rng.Intn(6) {
	case 0:
		first := sizes[rng.Intn(len(sizes))]
		if first > sz {
			first, sz = sz, first
		}
		what = "consistency between published sizes"
		err = mc.CheckConsistency(w, first, sz)
		if err != nil {
			err = fmt.Errorf("from %d to %d: %w", first, sz, err)
		}
	case 1: // from a size inside the old part of the tree
		first := 1 + uint64(rng.Int63n(int64(sz)))
		if rng.Intn(2) == 0 {
			if k := first >> (8 * uint(1+rng.Intn(4))) << (8 * uint(1+rng.Intn(4))); k > 0 && k <= sz {
				first = k
			}
		}
		what = "consistency from an old size"
		err = mc.CheckConsistency(w, first, sz)
		if err != nil {
			err = fmt.Errorf("from %d to %d: %w", first, sz, err)
		}
	case 2:
		i := real()
		what = "proof by hash"
		err = mc.CheckProofByHash(w, i, sz)
		if err != nil {
			err = fmt.Errorf("of %d in %d: %w", i, sz, err)
		}
		if err == nil {
			// the index answered is the entry's own
			lh := w.Aud.LeafHash(i)
			r := mc.get(fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", esc(lh[:]), sz))
			var j proofAnswer
			if json.Unmarshal(r.Body, &j) == nil && j.LeafIndex != nil && uint64(*j.LeafIndex) != i {
				err = fmt.Errorf("of %d in %d: answered index %d", i, sz, *j.LeafIndex)
			}
		}
	case 3:
		i := real()
		what = "entry and proof"
		err = mc.CheckEntryAndProof(w, i, sz)
		if err != nil {
			err = fmt.Errorf("of %d in %d: %w", i, sz, err)
		}
	case 4:
		a := real()
		b := a + uint64(rng.Intn(400))
		if rng.Intn(4) == 0 {
			b = a
		}
		what, cat = "entries", "huge-entry"
		err = mc.CheckEntries(w, a, b, sz)
		if err != nil {
			err = fmt.Errorf("%d to %d in %d: %w", a, b, sz, err)
		}
	default:
		hd, e := mc.STH(w)
		what = "tree head"
		if err = e; err == nil && (hd.Size < size || hd.Root != w.Aud.Root(hd.Size)) {
			err = fmt.Errorf("served tree head %v, published before: %d", hd, size)
		}
	}
	t.Count("proofs at huge sizes", 1)
	if err != nil {
		t.report(scope, Finding{Cat: cat, Msg: what + ": " + err.Error()}, w)
		return
	}
	t.Eval(fmt.Sprintf("%s/%s/%s", what, magnitude(sz), hist))
}
