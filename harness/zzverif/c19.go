package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"itko.dev/internal/sunlight"
)

func init() {
	checks["C19"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one batch of records put into the index or deduplication objects and compared, object by object and record by record, with a model, or one entry of a running log looked up through the monitor or by resubmission; " +
			"distinct = (mask size, storage, what kind of hashes share an object, batch size class, fault) combinations",
		Run: runC19,
	}
}

// bucketHistories drives the index code directly with chosen hashes; nil if the tree does not offer the functions.
var bucketHistories func(t *T)

func runC19(t *T) {
	rng := t.Rand("paths")
	for mask := 1; mask <= 32; mask++ {
		for k := 0; k < t.N(50, 500); k++ {
			h := make([]byte, 16)
			rng.Read(h)
			for i := range h {
				switch rng.Intn(8) {
				case 0:
					h[i] = 0
				case 1:
					h[i] = 255
				case 2:
					h[i] &= 15
				}
			}
			if got, want := sunlight.KAnonHashPath(h, mask), maskPath(h, mask); got != want {
				t.Violate("path", "hash %x, mask %d: location %q, want %q", h, mask, got, want)
			}
			t.Eval("")
		}
		t.Eval(fmt.Sprintf("location/mask %d", mask))
	}
	readFaults(t, cats("hashes-format", "dedupe-format", "hashes-lost", "dedupe-lost", "backing-index", "dedupe-differs"), t.N(14, 84))
	if bucketHistories != nil {
		bucketHistories(t)
	} else {
		t.Count("record-level histories skipped: functions not found", 1)
	}
	if !t.Failed() {
		c19logs(t)
	}
	if !t.Failed() {
		fullBatches(t, c19Scope, t.N(2, 10))
	}
}

var c19Scope = cats("hashes-format", "dedupe-format", "hashes-lost", "dedupe-lost", "backing-index", "index-wrong", "dedupe-wrong", "count", "dedupe-differs")

// c19logs runs logs with every mask size.
func c19logs(t *T) {
	scope := c19Scope
	type job struct {
		mask int
		fs   bool
		size uint64
	}
	var jobs []job
	sizes := []uint64{0, 0, 300, 0, 1000, 1<<40 - 400, 0, 1<<32 - 20, 1 << 24}
	jobs = append(jobs, job{1, false, 1<<20 + 100}, job{2, false, 1<<33 - 30}, job{1, false, 70000})
	for mask := 1; mask <= 32; mask++ {
		jobs = append(jobs, job{mask, mask%4 == 3, sizes[mask%len(sizes)]})
		if t.Thorough {
			for k := 0; k < 5; k++ {
				jobs = append(jobs, job{mask, k%2 == 0, sizes[(mask+k+1)%len(sizes)]})
			}
		}
	}
	t.Parallel(len(jobs), 6, func(i int) {
		j := jobs[i]
		if j.fs && j.size > 4096 {
			j.size = 513
		}
		rng := t.Rand(fmt.Sprint("log", i))
		w := NewWorld(WorldOpt{Mask: j.mask, FS: j.fs, FlushMs: []int{1, 5, 25}[i%3], Bulk: !j.fs && j.size > 4096})
		defer w.Close()
		if j.size > 0 {
			w.Prefill(rng, j.size)
		}
		var led Ledger
		bad := func(cat, f string, args ...any) {
			t.report(scope, Finding{Cat: cat, Msg: fmt.Sprintf("mask %d, fs %v, initial size %d: ", j.mask, j.fs, j.size) + fmt.Sprintf(f, args...)}, w)
		}
		m := &MonClient{}
		m.H, _ = w.Monitor()
		for round := 0; round < t.N(2, 5); round++ {
			in, err := w.Boot()
			if err != nil {
				t.Inconclusive("the log does not start: %v", err)
				return
			}
			n := []int{25, 3, 60, 1}[(i+round)%4]
			if j.fs {
				c19burst(t, in, rng, n, &led)
			} else {
				burst(t, in, rng, n, scope, &led)
			}
			// what was logged before, possibly by an earlier instance, is found again exactly
			all := led.All()
			rng.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
			for k := 0; k < len(all) && k < 12; k++ {
				r := in.Submit(all[k].Sub)
				sct, err := parseSCT(r.Body)
				if r.Code != 200 || err != nil {
					continue // availability is another property's business
				}
				if sct.Index != all[k].SCT.Index || sct.Timestamp != all[k].SCT.Timestamp {
					bad("dedupe-wrong", "the certificate logged at index %d, timestamp %d is answered with index %d, timestamp %d when it is submitted again", all[k].SCT.Index, all[k].SCT.Timestamp, sct.Index, sct.Timestamp)
				}
				t.Eval(fmt.Sprintf("resubmission/mask %d/round %d", j.mask, round))
			}
			in.Quiesce()
			if j.fs {
				time.Sleep(300 * time.Millisecond)
			}
			if !j.fs {
				w.Aud.FullAudit(w.Get)
				t.Count("deduplication records checked", int64(w.Aud.DedupeAudit(w.Get)))
				t.Drain(scope, w)
			}
			c19offline(t, w, j.size, bad)
			// the monitor finds them where the log put them
			all = led.All()
			sth, _ := w.Get("ct/v1/get-sth")
			head, err := verifySTH(sth, &w.Key.PublicKey)
			if err != nil {
				return
			}
			for k, p := range all {
				if k >= t.N(40, 300) {
					break
				}
				e := p.Sub.entryFor(p.SCT.Timestamp, p.SCT.Index)
				lh := leafHash(e.Leaf())
				if head.Size <= p.SCT.Index {
					break
				}
				r := m.get(fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", esc(lh[:]), head.Size))
				if r.Code != 200 || !strings.Contains(string(r.Body), fmt.Sprintf(`"leaf_index":%d,`, p.SCT.Index)) {
					bad("index-wrong", "entry %d (leaf hash %x) of tree size %d is not found by hash: %v", p.SCT.Index, lh[:8], head.Size, r)
					break
				}
				t.Eval(fmt.Sprintf("lookup/mask %d/round %d", j.mask, round))
			}
			t.Sample(map[string]any{"mask": j.mask, "fs": j.fs, "initial size": j.size, "entries looked up": len(all), "tree size": head.Size})
		}
	})
}

// c19burst submits without judging the answers against the storage (there is no online monitor for directories).
func c19burst(t *T, in *Inst, rng *rand.Rand, n int, led *Ledger) {
	ch := make(chan Promise, n)
	for k := 0; k < n; k++ {
		s := in.W.PKI.Small(rng)
		go func() {
			r := in.Submit(s)
			sct, err := parseSCT(r.Body)
			if r.Code != 200 || err != nil {
				ch <- Promise{}
				return
			}
			ch <- Promise{s, sct}
		}()
	}
	for k := 0; k < n; k++ {
		if p := <-ch; p.SCT != nil {
			led.Add(p)
			t.Count("scts", 1)
		}
	}
}

// listIndex lists all objects below prefix.
func (w *World) listIndex(prefix string) []string {
	if !w.Opt.FS {
		return w.Store.Keys(prefix)
	}
	var r []string
	filepath.Walk(filepath.Join(w.FSDir, prefix), func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			k, _ := filepath.Rel(w.FSDir, p)
			r = append(r, k)
		}
		return nil
	})
	sort.Strings(r)
	return r
}

// c19offline compares the index objects of a quiet log that was never interrupted within a batch with its entries: the
// records are exactly those of the entries, each once.
func c19offline(t *T, w *World, initial uint64, bad func(cat, f string, args ...any)) {
	d, _ := w.Get("ct/v1/get-sth")
	h, err := verifySTH(d, &w.Key.PublicKey)
	if err != nil {
		return
	}
	base := w.Aud.base
	want := map[string]int{}
	wantD := map[string]int{}
	hasPre := false
	for _, ti := range dataTilesFor(base, h.Size) {
		b, _ := w.Get(ti.Path())
		es, err := decodeDataTile(b)
		if err != nil || len(es) != ti.W {
			return // other properties
		}
		for _, e := range es {
			if e.Index < base {
				continue
			}
			want[string(hashRecord(leafHash(e.Leaf()), e.Index))]++
			if !e.Pre {
				wantD[string(dedupeRecord(e.FP(), e.Index, e.TS))]++
			} else {
				hasPre = true
			}
		}
	}
	n := 0
	dn := 0
	for kind, size := range map[string]int{"int/hashes/": 21, "int/dedupe/": 29} {
		for _, k := range w.listIndex(kind) {
			d, _ := w.Get(k)
			rs, wrong := w.Aud.records(k, d, size)
			if wrong != "" {
				bad(strings.Split(kind, "/")[1]+"-format", "%s", wrong)
				return
			}
			for _, r := range rs {
				if get40(r[16:]) < base {
					continue // of an entry before those this looks at
				}
				if size == 21 {
					n++
					want[string(r)]--
					if want[string(r)] < 0 {
						bad("count", "%s has the record %x (index %d) that belongs to no entry of the log, or has it twice", k, r, get40(r[16:]))
						return
					}
				} else {
					dn++
					if _, ok := wantD[string(r)]; ok {
						wantD[string(r)]--
						if wantD[string(r)] < 0 {
							bad("count", "%s has the record %x twice", k, r)
							return
						}
					} else if !hasPre {
						bad("count", "%s has the record %x that belongs to no entry of the log", k, r)
						return
					}
				}
			}
		}
	}
	for r, c := range want {
		if c > 0 {
			bad("hashes-lost", "no index object has the record %x of entry %d (tree size %d, %d records)", r, get40([]byte(r)[16:]), h.Size, n)
			return
		}
	}
	for r, c := range wantD {
		if c > 0 {
			bad("dedupe-lost", "no deduplication object has the record %x of entry %d (tree size %d, %d records)", r, get40([]byte(r)[16:]), h.Size, dn)
			return
		}
	}
	if uint64(dn) != h.Size-base {
		bad("count", "the log has %d entries with deduplication records, but %d records", h.Size-base, dn)
	}
	t.Count("index records checked offline", int64(n))
	t.Count("deduplication records checked offline", int64(dn))
}

func get40(b []byte) uint64 {
	return uint64(binary.LittleEndian.Uint32(b)) | uint64(b[4])<<32
}

// model of one kind of index
type indexModel struct {
	kind string
	rec  int
	mask int
	objs map[string][][]byte
}

func (m *indexModel) key(r []byte) string { return "int/" + m.kind + "/" + maskPath(r[:16], m.mask) }

// matches tells whether an object holds exactly the given records, sorted by hash.
func (m *indexModel) matches(d []byte, want [][]byte) string {
	if len(d)%m.rec != 0 {
		return fmt.Sprintf("%d bytes is no multiple of %d", len(d), m.rec)
	}
	cnt := map[string]int{}
	for _, r := range want {
		cnt[string(r)]++
	}
	n := len(d) / m.rec
	for i := 0; i < n; i++ {
		r := d[i*m.rec : (i+1)*m.rec]
		if i > 0 && bytes.Compare(d[(i-1)*m.rec:(i-1)*m.rec+16], r[:16]) > 0 {
			return fmt.Sprintf("record %d of %d is not in order", i, n)
		}
		cnt[string(r)]--
		if cnt[string(r)] < 0 {
			return fmt.Sprintf("record %d (%x) was never added, or is there twice", i, r)
		}
	}
	if n != len(want) {
		for r, c := range cnt {
			if c > 0 {
				return fmt.Sprintf("%d records instead of %d: %x is missing", n, len(want), r)
			}
		}
	}
	return ""
}
