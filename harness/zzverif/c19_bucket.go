//go:build bucketapi

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"maps"
	"math/rand"
	"os"
	"path/filepath"
	"sync"

	"itko.dev/internal/ctsubmit"
)

func init() { bucketHistories = c19histories }

// memStorage is a storage in memory with faults.
type memStorage struct {
	mu      sync.Mutex
	objs    map[string][]byte
	failGet func(key string) bool
	failSet func(key string) bool
	failed  int
}

func (m *memStorage) Get(ctx context.Context, key string) ([]byte, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.failGet != nil && m.failGet(key) {
		m.failed++
		return nil, errors.New("storage is down")
	}
	d, ok := m.objs[key]
	if !ok {
		return nil, fmt.Errorf("open %s: %w", key, os.ErrNotExist)
	}
	return append([]byte{}, d...), nil
}

func (m *memStorage) Set(ctx context.Context, key string, data []byte) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.failSet != nil && m.failSet(key) {
		m.failed++
		return errors.New("storage is down")
	}
	m.objs[key] = append([]byte{}, data...)
	return nil
}

func (m *memStorage) Exists(ctx context.Context, key string) (bool, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	_, ok := m.objs[key]
	return ok, nil
}

// c19hash makes hashes that share objects and prefixes in many ways.
func c19hash(rng *rand.Rand, mask int, seen [][]byte, style int) []byte {
	h := make([]byte, 16)
	rng.Read(h)
	share := func(nibbles int, from []byte) {
		for i := 0; i < nibbles/2; i++ {
			h[i] = from[i]
		}
		if nibbles%2 == 1 {
			h[nibbles/2] = from[nibbles/2]&0xf0 | h[nibbles/2]&15
		}
	}
	switch style {
	case 0: // anything
	case 1: // all in one object
		share(mask, make([]byte, 16))
	case 2: // differ in the last nibble or byte only
		share(31-rng.Intn(2), bytes.Repeat([]byte{0xab}, 16))
	case 3: // close to one seen before
		if len(seen) > 0 {
			s := seen[rng.Intn(len(seen))]
			copy(h, s)
			if rng.Intn(2) == 0 {
				h[15] += byte(1 + rng.Intn(3))
			} else {
				h[rng.Intn(16)] ^= 1 << uint(rng.Intn(8))
			}
		}
	case 4: // extremes
		b := byte(0)
		if rng.Intn(2) == 0 {
			b = 255
		}
		for i := range h {
			h[i] = b
		}
		h[rng.Intn(16)] ^= byte(rng.Intn(3))
	case 5: // share exactly up to the mask with one seen before, or one nibble less
		if len(seen) > 0 {
			share(max(0, mask-rng.Intn(2)), seen[rng.Intn(len(seen))])
		}
	case 6: // seen before
		if len(seen) > 0 && rng.Intn(3) == 0 {
			copy(h, seen[rng.Intn(len(seen))])
		}
	}
	return h
}

func c19index(rng *rand.Rand) uint64 {
	switch rng.Intn(6) {
	case 0:
		return []uint64{0, 1, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<32 - 1, 1 << 32, 1<<40 - 1, 1<<39 + 7}[rng.Intn(12)]
	case 1:
		return uint64(rng.Int63n(1000))
	}
	return uint64(rng.Int63n(1 << 40))
}

func c19histories(t *T) {
	var mu sync.Mutex
	done := map[string]int{}
	styles := []string{"random", "one object", "last nibble", "neighbours", "extremes", "mask boundary", "repeated"}
	n := t.N(64, 1200)
	t.Parallel(n, 8, func(i int) {
		rng := t.Rand(fmt.Sprint("history", i))
		mask := 1 + i%32
		style := rng.Intn(len(styles))
		stname := []string{"memory", "memory", "memory", "s3", "fs"}[rng.Intn(5)]
		mem := &memStorage{objs: map[string][]byte{}}
		var st ctsubmit.Storage = mem
		get := func(k string) ([]byte, bool) {
			mem.mu.Lock()
			defer mem.mu.Unlock()
			d, ok := mem.objs[k]
			return d, ok
		}
		list := func() []string {
			mem.mu.Lock()
			defer mem.mu.Unlock()
			var r []string
			for k := range mem.objs {
				r = append(r, k)
			}
			return r
		}
		switch stname {
		case "s3":
			gw := env.S3.Gateway(NewStore(), fmt.Sprintf("c19-%d", uniq()))
			s := ctsubmit.NewS3Storage("us-east-1", gw.Name, env.S3.URL, "u", "p")
			st, get = &s, gw.store.Get
			list = func() []string { return gw.store.Keys("") }
		case "fs":
			dir := filepath.Join(env.Dir, fmt.Sprintf("c19-%d", uniq()))
			defer os.RemoveAll(dir)
			w := &World{Opt: WorldOpt{FS: true}, FSDir: dir}
			s := ctsubmit.NewFsStorage(dir)
			st, get = &s, w.Get
			list = func() []string { return append(w.listIndex("int/hashes"), w.listIndex("int/dedupe")...) }
		}
		b := &ctsubmit.Bucket{S: st}
		ctx := context.Background()
		rec := &indexModel{kind: "hashes", rec: 21, mask: mask, objs: map[string][][]byte{}}
		ded := &indexModel{kind: "dedupe", rec: 29, mask: mask, objs: map[string][][]byte{}}
		var seen [][]byte
		bad := func(f string, args ...any) {
			t.Violate("index-history", "mask %d, %s hashes, %s storage: %s", mask, styles[style], stname, fmt.Sprintf(f, args...))
		}
		long := stname == "memory" && i%5 == 0
		if long { // objects that hold thousands of records already
			style = 1
			for _, m := range []*indexModel{rec, ded} {
				var recs [][]byte
				n := []int{800, 2300, 3200, 5000}[rng.Intn(4)]
				for k := 0; k < n; k++ {
					h := c19hash(rng, mask, nil, 1)
					r := append(append([]byte{}, h...), le40(c19index(rng))...)
					if m.rec == 29 {
						r = append(r, 1, 2, 3, 4, 5, 6, 7, byte(k&0x7f))
					}
					recs = append(recs, r)
					if k%97 == 0 {
						seen = append(seen, h)
					}
				}
				k := m.key(recs[0])
				mem.objs[k] = joinSorted(recs)
				m.objs[k] = recs
			}
			t.Count("histories with objects of thousands of records", 1)
		}
		for step := 0; step < t.N(14, 40) && !t.Failed(); step++ {
			m := []*indexModel{rec, ded}[rng.Intn(2)]
			size := []int{1, 1, 2, 3, 8, 40, 255}[rng.Intn(7)]
			if stname != "memory" {
				size = min(size, 12)
			}
			var batch [][]byte
			for k := 0; k < size; k++ {
				h := c19hash(rng, mask, seen, style)
				seen = append(seen, h)
				r := append(append([]byte{}, h...), le40(c19index(rng))...)
				if m.rec == 29 {
					var ts [8]byte
					rng.Read(ts[:])
					ts[7] &= 0x7f
					r = append(r, ts[:]...)
				}
				batch = append(batch, r)
			}
			fault := "none"
			if stname == "memory" && rng.Intn(4) == 0 {
				fault = []string{"read fails", "write fails"}[rng.Intn(2)]
				f := rand.New(rand.NewSource(rng.Int63()))
				p := func(string) bool { return f.Intn(3) == 0 }
				mem.failed = 0
				if fault == "read fails" {
					mem.failGet = p
				} else {
					mem.failSet = p
				}
			}
			err := func() (err error) {
				if m.rec == 21 {
					var v []ctsubmit.RecordHashUpload
					for _, r := range batch {
						x, err := ctsubmit.BytesToRecord(r)
						if err != nil {
							bad("record %x is refused: %v", r, err)
							return err
						}
						if !bytes.Equal(x.ToBytes(), r) {
							bad("record %x is encoded again as %x", r, x.ToBytes())
						}
						v = append(v, x)
					}
					return b.PutRecordHashes(ctx, v, mask)
				}
				var v []ctsubmit.DedupeUpload
				for _, r := range batch {
					x, err := ctsubmit.BytesToDedupe(r)
					if err != nil {
						bad("record %x is refused: %v", r, err)
						return err
					}
					if !bytes.Equal(x.ToBytes(), r) {
						bad("record %x is encoded again as %x", r, x.ToBytes())
					}
					v = append(v, x)
				}
				return b.PutDedupeEntries(ctx, v, mask)
			}()
			mem.failGet, mem.failSet = nil, nil
			hit := mem.failed > 0
			mem.failed = 0
			after := map[string][][]byte{}
			maps.Copy(after, m.objs)
			for _, r := range batch {
				k := m.key(r)
				after[k] = append(append([][]byte{}, after[k]...), r)
			}
			if err == nil && hit {
				bad("adding %d %s records reports success although the %s", len(batch), m.kind, fault)
			}
			if err != nil && !hit {
				bad("adding %d %s records fails: %v", len(batch), m.kind, err)
			}
			for k, want := range after {
				d, _ := get(k)
				wrong := m.matches(d, want)
				if wrong != "" && err != nil && m.matches(d, m.objs[k]) == "" {
					after[k] = m.objs[k] // not written
					if len(after[k]) == 0 {
						delete(after, k)
					}
					continue
				}
				if wrong != "" {
					bad("step %d, after adding %d %s records (fault: %s), %s: %s", step, len(batch), m.kind, fault, k, wrong)
					return
				}
			}
			m.objs = after
			// nothing else appeared
			for _, k := range list() {
				if rec.objs[k] == nil && ded.objs[k] == nil {
					bad("unexpected object %s", k)
				}
			}
			// lookups
			for q := 0; q < 6; q++ {
				h := c19hash(rng, mask, seen, 3)
				if q < 4 {
					h = seen[rng.Intn(len(seen))]
				}
				want := map[string]bool{}
				for _, r := range m.objs["int/"+m.kind+"/"+maskPath(h, mask)] {
					if bytes.Equal(r[:16], h) {
						want[string(r)] = true
					}
				}
				var got []byte
				var err error
				if m.rec == 21 {
					var x ctsubmit.RecordHashUpload
					if x, err = b.GetRecordHash(ctx, [16]byte(h), mask); err == nil {
						got = x.ToBytes()
					}
				} else {
					var x ctsubmit.DedupeUpload
					if x, err = b.GetDedupeEntry(ctx, [16]byte(h), mask); err == nil {
						got = x.ToBytes()
					}
				}
				if (err == nil) != (len(want) > 0) || err == nil && !want[string(got)] {
					bad("step %d: looking up hash %x among %d records gives %x, error %v; matching records: %d", step, h, len(m.objs["int/"+m.kind+"/"+maskPath(h, mask)]), got, err, len(want))
				}
				t.Count("direct lookups", 1)
			}
			t.Eval(fmt.Sprintf("mask %d/%s/%s/%s/batch %s/%s", mask, styles[style], m.kind, stname, batchClass(uint64(size)), fault))
			mu.Lock()
			done[fault]++
			mu.Unlock()
		}
		if i < 2 {
			t.Sample(map[string]any{"mask": mask, "hashes": styles[style], "storage": stname, "index objects": len(rec.objs), "deduplication objects": len(ded.objs), "hashes used": len(seen)})
		}
	})
	for k, v := range done {
		t.Count("batches with fault: "+k, int64(v))
	}
}
