package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"
	"sync"
)

// Finding is one observed contradiction.
type Finding struct {
	Cat string
	Msg string
	Ops []string
}

func (f Finding) String() string { return f.Cat + ": " + f.Msg }

// Auditor is the online monitor of a log's storage. Its onPut observer sees every write before it becomes visible.
type Auditor struct {
	pub    *ecdsa.PublicKey
	origin string
	mask   int

	mu       sync.Mutex
	tree     *RefTree
	base     uint64
	entries  []*Entry // entries[i] is at index base+i
	chains   map[[32]byte][]byte
	sth, cp  Head
	haveSTH  bool
	haveCP   bool
	sthSizes map[uint64]bool
	cpSizes  map[uint64]bool
	sthLog   []Head
	maxTS    uint64
	immut    map[string][32]byte
	hrec     map[string]map[string]bool // index object -> published records
	subs     map[[32]byte][]*Sub
	closed   bool // strict: entries must come from registered submissions
	findings []Finding
	broken   bool
	nHeads   int
	nTiles   int
	nIndex   int
	nIssuers int
	nOver    int
	onHead   func(kind string, h Head) // called with mu held
}

func NewAuditor(pub *ecdsa.PublicKey, origin string, mask int) *Auditor {
	return &Auditor{pub: pub, origin: origin, mask: mask, tree: NewRefTree(0), chains: map[[32]byte][]byte{},
		sthSizes: map[uint64]bool{}, cpSizes: map[uint64]bool{}, immut: map[string][32]byte{},
		hrec: map[string]map[string]bool{}, subs: map[[32]byte][]*Sub{}}
}

// Register announces a submission that may end up in the log.
func (a *Auditor) Register(s *Sub) {
	a.mu.Lock()
	a.subs[s.FP] = append(a.subs[s.FP], s)
	a.mu.Unlock()
}

func (a *Auditor) find(cat, f string, args ...any) {
	if len(a.findings) < 50 {
		a.findings = append(a.findings, Finding{Cat: cat, Msg: fmt.Sprintf(f, args...)})
	}
}

func (a *Auditor) Findings() []Finding {
	a.mu.Lock()
	defer a.mu.Unlock()
	return append([]Finding{}, a.findings...)
}

func (a *Auditor) Published() (sth, cp Head) {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.sth, a.cp
}

func (a *Auditor) Size() uint64 {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.sth.Size
}

// Sizes lists all sizes that were published as get-sth, ascending.
func (a *Auditor) Sizes() []uint64 {
	a.mu.Lock()
	defer a.mu.Unlock()
	var r []uint64
	for s := range a.sthSizes {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (a *Auditor) Entry(i uint64) *Entry {
	a.mu.Lock()
	defer a.mu.Unlock()
	if i < a.base || i-a.base >= uint64(len(a.entries)) {
		return nil
	}
	return a.entries[i-a.base]
}

func (a *Auditor) Root(n uint64) Hash {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.tree.Root(n)
}

func (a *Auditor) LeafHash(i uint64) Hash {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.tree.Leaf(i)
}

func (a *Auditor) onPut(op *Op, get func(string) ([]byte, bool)) {
	a.mu.Lock()
	defer a.mu.Unlock()
	k := op.Key
	switch {
	case k == "ct/v1/get-sth":
		h, err := verifySTH(op.Data, a.pub)
		if err != nil {
			a.find("head-sig", "get-sth written by %s does not verify: %v (%.200q)", op.Gateway, err, op.Data)
			return
		}
		a.head("sth", h, get)
	case k == "checkpoint":
		h, err := verifyCheckpoint(op.Data, a.origin, a.pub)
		if err != nil {
			a.find("head-sig", "checkpoint written by %s does not verify: %v (%.300q)", op.Gateway, err, op.Data)
			return
		}
		a.head("checkpoint", h, get)
	case strings.HasPrefix(k, "int/hashes/"):
		a.indexPut(k, op.Data, 21, get)
	case strings.HasPrefix(k, "int/dedupe/"):
		a.indexPut(k, op.Data, 29, get)
	case strings.HasPrefix(k, "issuer/"):
		if fmt.Sprintf("issuer/%x", sha256.Sum256(op.Data)) != k {
			a.find("issuer-content", "object %s does not hold the certificate it is named after", k)
		}
	}
	if want, ok := a.immut[k]; ok && sha256.Sum256(op.Data) != want {
		a.find("immutable-overwritten", "object %s, part of a published tree, is overwritten with different contents by %s", k, op.Gateway)
	}
}

// records splits an index object; nil if it is not well formed.
func (a *Auditor) records(k string, d []byte, rec int) ([][]byte, string) {
	if len(d)%rec != 0 {
		return nil, fmt.Sprintf("%s has %d bytes, not a multiple of the record size %d", k, len(d), rec)
	}
	var r [][]byte
	for i := 0; i < len(d); i += rec {
		r = append(r, d[i:i+rec])
		if i > 0 && bytes.Compare(d[i-rec:i-rec+16], d[i:i+16]) > 0 {
			return nil, fmt.Sprintf("%s is not sorted at record %d", k, i/rec)
		}
		p := k[:strings.Index(k[4:], "/")+5] + maskPath(d[i:i+16], a.mask)
		if p != k {
			return nil, fmt.Sprintf("%s holds a record that belongs to %s", k, p)
		}
	}
	return r, ""
}

func (a *Auditor) indexPut(k string, d []byte, rec int, get func(string) ([]byte, bool)) {
	a.nIndex++
	kind := "hashes"
	if rec == 29 {
		kind = "dedupe"
	}
	rs, bad := a.records(k, d, rec)
	if bad != "" {
		a.find(kind+"-format", "%s", bad)
		return
	}
	cnt := map[string]int{}
	for _, r := range rs {
		cnt[string(r)]++
	}
	if old, ok := get(k); ok {
		os, bad := a.records(k, old, rec)
		if bad == "" {
			for _, r := range os {
				cnt[string(r)]--
				if cnt[string(r)] < 0 {
					a.find(kind+"-lost", "the write of %s drops or alters record %x", k, r)
					return
				}
			}
		}
	}
	if rec == 21 {
		have := map[string]bool{}
		for _, r := range rs {
			have[string(r)] = true
		}
		for r := range a.hrec[k] {
			if !have[r] {
				a.find("hashes-lost", "the write of %s loses the record %x of a published entry", k, r)
				return
			}
		}
	}
}

// head audits a tree head that is about to become visible.
func (a *Auditor) head(kind string, h Head, get func(string) ([]byte, bool)) {
	a.nHeads++
	last, have := a.sth, a.haveSTH
	if kind == "checkpoint" {
		last, have = a.cp, a.haveCP
	}
	if have && h.Size < last.Size {
		a.find("head-shrink", "%s goes back from %v to %v", kind, last, h)
	}
	if have && h.TS < last.TS {
		a.find("head-time", "%s timestamp goes back from %v to %v", kind, last, h)
	}
	if !a.broken && h.Size > a.tree.Size() {
		a.extend(kind, h, get)
	}
	if !a.broken {
		if h.Size < a.base {
			a.find("head-shrink", "%s %v is older than the initial log", kind, h)
		} else if r := a.tree.Root(h.Size); r != h.Root {
			a.find("head-root", "%s %v: root of the published entries is %x", kind, h, r[:6])
		}
	}
	if a.maxTSof(h.Size) > h.TS {
		a.find("head-stale", "%s %v is older than an entry it covers (timestamp %d)", kind, h, a.maxTSof(h.Size))
	}
	if kind == "sth" {
		a.sth, a.haveSTH = h, true
		a.sthSizes[h.Size] = true
		a.sthLog = append(a.sthLog, h)
	} else {
		a.cp, a.haveCP = h, true
		a.cpSizes[h.Size] = true
	}
	if a.onHead != nil {
		a.onHead(kind, h)
	}
}

func (a *Auditor) maxTSof(size uint64) uint64 {
	if size >= a.base+uint64(len(a.entries)) {
		return a.maxTS
	}
	var m uint64
	for i := uint64(0); a.base+i < size; i++ {
		if a.entries[i].TS > m {
			m = a.entries[i].TS
		}
	}
	return m
}

func (a *Auditor) extend(kind string, h Head, get func(string) ([]byte, bool)) {
	old := a.tree.Size()
	for _, t := range dataTilesFor(old, h.Size) {
		a.nTiles++
		d, ok := get(t.Path())
		if !ok {
			a.find("backing-data", "%s %v is published but data tile %s is missing", kind, h, t.Path())
			a.broken = true
			return
		}
		es, err := decodeDataTile(d)
		if err != nil || len(es) != t.W {
			a.find("backing-data", "%s %v is published but data tile %s holds %d entries (error %v)", kind, h, t.Path(), len(es), err)
			a.broken = true
			return
		}
		for i, e := range es {
			idx := t.N*256 + uint64(i)
			if e.Index != idx {
				a.find("entry-index", "entry %d of data tile %s carries leaf index %d", i, t.Path(), e.Index)
			}
			if idx < old {
				if idx >= a.base && !bytes.Equal(e.TileLeaf(), a.entries[idx-a.base].TileLeaf()) {
					a.find("entry-changed", "entry %d differs between the data tiles of size %d and %d", idx, old, h.Size)
				}
				continue
			}
			a.addEntry(e)
			a.checkEntry(e, get)
		}
		a.immut[t.Path()] = sha256.Sum256(d)
	}
	for _, t := range tilesFor(old, h.Size) {
		a.nTiles++
		d, ok := get(t.Path())
		if !ok {
			a.find("backing-tile", "%s %v is published but hash tile %s is missing", kind, h, t.Path())
			continue
		}
		if !bytes.Equal(d, a.tree.tile(t.Level, t.N, t.W)) {
			a.find("backing-tile", "%s %v is published but hash tile %s (%d bytes) does not match the entries", kind, h, t.Path(), len(d))
			continue
		}
		a.immut[t.Path()] = sha256.Sum256(d)
	}
}

func (a *Auditor) addEntry(e *Entry) {
	a.entries = append(a.entries, e)
	a.tree.Append(leafHash(e.Leaf()))
	if e.TS > a.maxTS {
		a.maxTS = e.TS
	}
}

// checkEntry checks everything that must exist besides the tiles for a newly published entry.
func (a *Auditor) checkEntry(e *Entry, get func(string) ([]byte, bool)) {
	for _, f := range e.Chain {
		if _, ok := a.chains[f]; ok {
			continue
		}
		k := fmt.Sprintf("issuer/%x", f)
		d, ok := get(k)
		a.nIssuers++
		if !ok || sha256.Sum256(d) != f {
			a.find("backing-issuer", "entry %d is published but its issuer object %s is missing or wrong", e.Index, k)
			continue
		}
		a.chains[f] = d
		a.immut[k] = f
	}
	lh := leafHash(e.Leaf())
	k := "int/hashes/" + maskPath(lh[:16], a.mask)
	want := string(hashRecord(lh, e.Index))
	d, _ := get(k)
	rs, bad := a.records(k, d, 21)
	ok := false
	for _, r := range rs {
		if string(r) == want {
			ok = true
		}
	}
	if !ok {
		a.find("backing-index", "entry %d is published but index object %s (%d records %s) has no record for it", e.Index, k, len(rs), bad)
	}
	if a.hrec[k] == nil {
		a.hrec[k] = map[string]bool{}
	}
	a.hrec[k][want] = true
	fp := e.FP()
	subs := a.subs[fp]
	if len(subs) == 0 {
		if a.closed {
			a.find("entry-alien", "entry %d (%x) was never submitted validly", e.Index, fp[:6])
		}
		return
	}
	got := e.TileLeaf()
	for _, s := range subs {
		if bytes.Equal(s.entryFor(e.TS, e.Index).TileLeaf(), got) {
			return
		}
	}
	w := subs[0].entryFor(e.TS, e.Index)
	a.find("entry-content", "entry %d is not as submitted (%s): type %v/%v, certificate equal %v, issuer key hash equal %v, precertificate equal %v, chain %d/%d",
		e.Index, subs[0].Kind, e.Pre, w.Pre, bytes.Equal(e.Cert, w.Cert), e.IKH == w.IKH, bytes.Equal(e.PreCert, w.PreCert), len(e.Chain), len(w.Chain))
}

// CheckPromise judges an SCT against the state published at this moment.
func (a *Auditor) CheckPromise(s *Sub, sct *SCT, logID [32]byte) []Finding {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.checkPromise(s, sct, logID)
}

func (a *Auditor) checkPromise(s *Sub, sct *SCT, logID [32]byte) []Finding {
	var r []Finding
	add := func(cat, f string, args ...any) { r = append(r, Finding{Cat: cat, Msg: fmt.Sprintf(f, args...)}) }
	e := s.entryFor(sct.Timestamp, sct.Index)
	if !bytes.Equal(sct.ID, logID[:]) {
		add("sct-id", "SCT for submission %d carries log ID %x", s.ID, sct.ID)
	}
	if err := checkDigSig(a.pub, e.Leaf(), sct.Sig); err != nil {
		add("sct-sig", "SCT (index %d, timestamp %d) for submission %d (%s) does not verify over the submitted entry: %v", sct.Index, sct.Timestamp, s.ID, s.Kind, err)
	}
	if a.broken {
		return r
	}
	if a.sth.Size <= sct.Index || !a.haveSTH {
		add("sct-early", "SCT with index %d was answered while get-sth is at %v", sct.Index, a.sth)
		return r
	}
	if a.cp.Size <= sct.Index || !a.haveCP {
		add("sct-early", "SCT with index %d was answered while the checkpoint is at %v", sct.Index, a.cp)
		return r
	}
	if sct.Index < a.base {
		add("sct-entry", "SCT with index %d below the initial log", sct.Index)
		return r
	}
	got := a.entries[sct.Index-a.base]
	if !bytes.Equal(got.Leaf(), e.Leaf()) {
		gf := got.FP()
		add("sct-entry", "SCT for submission %d (%s) promises index %d timestamp %d, but the log has entry %x timestamp %d there (submitted: %x)",
			s.ID, s.Kind, sct.Index, sct.Timestamp, gf[:6], got.TS, s.FP[:6])
	}
	return r
}

// FullAudit re-reads everything the published tree needs. No locks are held while reading: the store's lock comes
// before the auditor's.
func (a *Auditor) FullAudit(get func(string) ([]byte, bool)) {
	a.mu.Lock()
	immut := make(map[string][32]byte, len(a.immut))
	for k, h := range a.immut {
		immut[k] = h
	}
	hrec := map[string][]string{}
	for k, recs := range a.hrec {
		for r := range recs {
			hrec[k] = append(hrec[k], r)
		}
	}
	a.mu.Unlock()
	var found []Finding
	for k, h := range immut {
		d, ok := get(k)
		if !ok || sha256.Sum256(d) != h {
			found = append(found, Finding{Cat: "backing-lost", Msg: fmt.Sprintf("object %s, part of a published tree, is gone or changed at the end", k)})
		}
	}
	for k, recs := range hrec {
		d, _ := get(k)
		rs, bad := a.records(k, d, 21)
		have := map[string]bool{}
		for _, r := range rs {
			have[string(r)] = true
		}
		for _, r := range recs {
			if !have[r] {
				found = append(found, Finding{Cat: "hashes-lost", Msg: fmt.Sprintf("%s has no record %x of a published entry at the end %s", k, r, bad)})
				break
			}
		}
	}
	a.mu.Lock()
	for _, f := range found {
		a.find(f.Cat, "%s", f.Msg)
	}
	a.mu.Unlock()
}

// DedupeAudit checks that every published entry the test accepts has an exact deduplication record (only meaningful
// when quiescent). Precertificates signed by a dedicated precertificate signing certificate are left out: the key of
// their record depends on the issuers too.
func (a *Auditor) DedupeAudit(get func(string) ([]byte, bool)) (n int) {
	a.mu.Lock()
	entries := append([]*Entry{}, a.entries...)
	pre := map[[32]byte]bool{}
	for fp, l := range a.subs {
		for _, s := range l {
			if s.PreIssuer {
				pre[fp] = true
			}
		}
	}
	a.mu.Unlock()
	cache := map[string]map[string]bool{}
	for _, e := range entries {
		fp := e.FP()
		if pre[fp] {
			continue
		}
		n++
		k := "int/dedupe/" + maskPath(fp[:16], a.mask)
		if cache[k] == nil {
			cache[k] = map[string]bool{}
			d, _ := get(k)
			rs, _ := a.records(k, d, 29)
			for _, r := range rs {
				cache[k][string(r)] = true
			}
		}
		if !cache[k][string(dedupeRecord(fp, e.Index, e.TS))] {
			a.mu.Lock()
			a.find("dedupe-lost", "no record for entry %d (timestamp %d) in %s (%d records)", e.Index, e.TS, k, len(cache[k]))
			a.mu.Unlock()
			return
		}
	}
	return
}
