package main

// Independent reference implementation of RFC 6962 / Static CT data structures. Nothing here calls itko code.

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

type Hash [32]byte

func leafHash(leaf []byte) Hash {
	return sha256.Sum256(append([]byte{0}, leaf...))
}

func nodeHash(l, r Hash) Hash {
	b := make([]byte, 65)
	b[0] = 1
	copy(b[1:], l[:])
	copy(b[33:], r[:])
	return sha256.Sum256(b)
}

var emptyRoot = Hash(sha256.Sum256(nil))

// ---------------------------------------------------------------- trees

// RefTree is a Merkle tree whose leaves below base all have the hash konst.
type RefTree struct {
	base   uint64
	konst  [64]Hash // hash of a perfect subtree of konst leaves, by level
	leaves []Hash   // leaves base, base+1, ...
	memo   map[[2]uint64]Hash
}

func NewRefTree(base uint64) *RefTree {
	t := &RefTree{base: base, memo: map[[2]uint64]Hash{}}
	t.konst[0] = leafHash([]byte("constant leaf"))
	for i := 1; i < 64; i++ {
		t.konst[i] = nodeHash(t.konst[i-1], t.konst[i-1])
	}
	return t
}

func (t *RefTree) Size() uint64 { return t.base + uint64(len(t.leaves)) }

func (t *RefTree) Append(h Hash) { t.leaves = append(t.leaves, h) }

// Sub is the hash of the perfect subtree of 2^level leaves starting at idx<<level. All its leaves must exist.
func (t *RefTree) Sub(level uint, idx uint64) Hash {
	lo, hi := idx<<level, (idx+1)<<level
	if hi <= t.base {
		return t.konst[level]
	}
	if hi > t.Size() {
		panic(fmt.Sprintf("reference tree: subtree %d/%d beyond size %d", level, idx, t.Size()))
	}
	if level == 0 {
		return t.leaves[lo-t.base]
	}
	k := [2]uint64{uint64(level), idx}
	if h, ok := t.memo[k]; ok {
		return h
	}
	h := nodeHash(t.Sub(level-1, idx*2), t.Sub(level-1, idx*2+1))
	t.memo[k] = h
	return h
}

func (t *RefTree) Leaf(i uint64) Hash { return t.Sub(0, i) }

// Root of the first n leaves.
func (t *RefTree) Root(n uint64) Hash {
	if n == 0 {
		return emptyRoot
	}
	return t.rng(0, n)
}

// rng is MTH(D[lo:hi]) where lo is aligned for the size.
func (t *RefTree) rng(lo, hi uint64) Hash {
	n := hi - lo
	if n&(n-1) == 0 {
		l := uint(bits.TrailingZeros64(n))
		return t.Sub(l, lo>>l)
	}
	k := uint64(1) << (bits.Len64(n-1) - 1)
	return nodeHash(t.rng(lo, lo+k), t.rng(lo+k, hi))
}

func (t *RefTree) tile(level int, n uint64, w int) []byte {
	var b []byte
	for i := 0; i < w; i++ {
		h := t.Sub(uint(8*level), n*256+uint64(i))
		b = append(b, h[:]...)
	}
	return b
}

// Tile identifies a hash tile (Level >= 0) or a data tile (Level == -1).
type TileID struct {
	Level int
	N     uint64
	W     int
}

func (t TileID) Path() string {
	var parts []string
	n := t.N
	parts = append(parts, fmt.Sprintf("%03d", n%1000))
	for n /= 1000; n > 0; n /= 1000 {
		parts = append([]string{fmt.Sprintf("x%03d", n%1000)}, parts...)
	}
	s := "tile/data/"
	if t.Level >= 0 {
		s = fmt.Sprintf("tile/%d/", t.Level)
	}
	s += strings.Join(parts, "/")
	if t.W != 256 {
		s += fmt.Sprintf(".p/%d", t.W)
	}
	return s
}

// tilesFor lists the hash tiles of a tree of the given size that overlap leaves from, from+1, ...
func tilesFor(from, size uint64) []TileID {
	var r []TileID
	for level := 0; ; level++ {
		cnt := size >> (8 * uint(level)) // complete subtrees at this level
		if cnt == 0 {
			break
		}
		start := (from >> (8 * uint(level))) / 256
		for n := start; n*256 < cnt; n++ {
			w := cnt - n*256
			if w > 256 {
				w = 256
			}
			r = append(r, TileID{level, n, int(w)})
		}
	}
	return r
}

func dataTilesFor(from, size uint64) []TileID {
	var r []TileID
	for n := from / 256; n*256 < size; n++ {
		w := size - n*256
		if w > 256 {
			w = 256
		}
		r = append(r, TileID{-1, n, int(w)})
	}
	return r
}

// ---------------------------------------------------------------- proofs

func verifyInclusion(leaf Hash, index, size uint64, path []Hash, root Hash) error {
	if index >= size {
		return errors.New("index beyond tree")
	}
	fn, sn := index, size-1
	r := leaf
	for _, p := range path {
		if sn == 0 {
			return errors.New("path too long")
		}
		if fn&1 == 1 || fn == sn {
			r = nodeHash(p, r)
			if fn&1 == 0 {
				for fn&1 == 0 && fn != 0 {
					fn >>= 1
					sn >>= 1
				}
			}
		} else {
			r = nodeHash(r, p)
		}
		fn >>= 1
		sn >>= 1
	}
	if sn != 0 {
		return errors.New("path too short")
	}
	if r != root {
		return fmt.Errorf("root mismatch: computed %x, want %x", r[:6], root[:6])
	}
	return nil
}

func verifyConsistency(first, second uint64, path []Hash, r1, r2 Hash) error {
	if first == second {
		if len(path) != 0 {
			return errors.New("non-empty proof for equal sizes")
		}
		if r1 != r2 {
			return errors.New("roots differ")
		}
		return nil
	}
	if first == 0 {
		if len(path) != 0 {
			return errors.New("non-empty proof from the empty tree")
		}
		return nil
	}
	if len(path) == 0 {
		return errors.New("empty proof")
	}
	if first&(first-1) == 0 {
		path = append([]Hash{r1}, path...)
	}
	fn, sn := first-1, second-1
	for fn&1 == 1 {
		fn >>= 1
		sn >>= 1
	}
	fr, sr := path[0], path[0]
	for _, c := range path[1:] {
		if sn == 0 {
			return errors.New("path too long")
		}
		if fn&1 == 1 || fn == sn {
			fr = nodeHash(c, fr)
			sr = nodeHash(c, sr)
			if fn&1 == 0 {
				for fn&1 == 0 && fn != 0 {
					fn >>= 1
					sn >>= 1
				}
			}
		} else {
			sr = nodeHash(sr, c)
		}
		fn >>= 1
		sn >>= 1
	}
	if sn != 0 {
		return errors.New("path too short")
	}
	if fr != r1 {
		return errors.New("first root mismatch")
	}
	if sr != r2 {
		return errors.New("second root mismatch")
	}
	return nil
}

// ---------------------------------------------------------------- entries

type Entry struct {
	Pre     bool
	Cert    []byte // certificate or TBS
	IKH     [32]byte
	PreCert []byte
	Chain   [][32]byte
	TS      uint64
	Index   uint64
}

func put24(b []byte, v []byte) []byte {
	if len(v) >= 1<<24 {
		panic("too long")
	}
	b = append(b, byte(len(v)>>16), byte(len(v)>>8), byte(len(v)))
	return append(b, v...)
}

func extBytes(index uint64) []byte {
	return []byte{0, 0, 5, byte(index >> 32), byte(index >> 24), byte(index >> 16), byte(index >> 8), byte(index)}
}

func (e *Entry) timestamped() []byte {
	b := binary.BigEndian.AppendUint64(nil, e.TS)
	if e.Pre {
		b = append(b, 0, 1)
		b = append(b, e.IKH[:]...)
	} else {
		b = append(b, 0, 0)
	}
	b = put24(b, e.Cert)
	x := extBytes(e.Index)
	b = binary.BigEndian.AppendUint16(b, uint16(len(x)))
	return append(b, x...)
}

// Leaf is the MerkleTreeLeaf, which is also what an SCT signs.
func (e *Entry) Leaf() []byte { return append([]byte{0, 0}, e.timestamped()...) }

func (e *Entry) TileLeaf() []byte {
	b := e.timestamped()
	if e.Pre {
		b = put24(b, e.PreCert)
	}
	b = binary.BigEndian.AppendUint16(b, uint16(32*len(e.Chain)))
	for _, f := range e.Chain {
		b = append(b, f[:]...)
	}
	return b
}

func (e *Entry) FP() [32]byte {
	if e.Pre {
		return sha256.Sum256(e.PreCert)
	}
	return sha256.Sum256(e.Cert)
}

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) n(n int) []byte {
	if r.bad || len(r.b) < n {
		r.bad = true
		return make([]byte, 0)
	}
	v := r.b[:n]
	r.b = r.b[n:]
	return v
}

func (r *rd) u(n int) uint64 {
	v := r.n(n)
	var x uint64
	for _, c := range v {
		x = x<<8 | uint64(c)
	}
	return x
}

func decodeTileLeaf(b []byte) (*Entry, []byte, error) {
	r := &rd{b: b}
	e := &Entry{}
	e.TS = r.u(8)
	switch typ := r.u(2); typ {
	case 0:
	case 1:
		e.Pre = true
		copy(e.IKH[:], r.n(32))
	default:
		return nil, nil, fmt.Errorf("entry type %d", typ)
	}
	e.Cert = r.n(int(r.u(3)))
	x := &rd{b: r.n(int(r.u(2)))}
	if e.Pre {
		e.PreCert = r.n(int(r.u(3)))
	}
	fl := int(r.u(2))
	if fl%32 != 0 {
		return nil, nil, errors.New("fingerprint list not a multiple of 32")
	}
	f := r.n(fl)
	for i := 0; i+32 <= len(f); i += 32 {
		e.Chain = append(e.Chain, [32]byte(f[i:i+32]))
	}
	if x.u(1) != 0 || x.u(2) != 5 {
		return nil, nil, errors.New("bad leaf_index extension")
	}
	e.Index = x.u(5)
	if x.bad || len(x.b) != 0 {
		return nil, nil, errors.New("bad extensions")
	}
	if r.bad {
		return nil, nil, errors.New("truncated entry")
	}
	if e.TS > 1<<63-1 {
		return nil, nil, errors.New("timestamp out of range")
	}
	return e, r.b, nil
}

func decodeDataTile(b []byte) ([]*Entry, error) {
	var r []*Entry
	for len(b) > 0 {
		e, rest, err := decodeTileLeaf(b)
		if err != nil {
			return r, fmt.Errorf("entry %d of tile: %w", len(r), err)
		}
		r = append(r, e)
		b = rest
	}
	return r, nil
}

// ---------------------------------------------------------------- signatures and heads

type Head struct {
	Size uint64
	TS   uint64
	Root Hash
}

func (h Head) String() string { return fmt.Sprintf("size=%d ts=%d root=%x", h.Size, h.TS, h.Root[:6]) }

// headInput is the TreeHeadSignature input of RFC 6962 section 3.5.
func headInput(h Head) []byte {
	b := []byte{0, 1}
	b = binary.BigEndian.AppendUint64(b, h.TS)
	b = binary.BigEndian.AppendUint64(b, h.Size)
	return append(b, h.Root[:]...)
}

func checkDigSig(pub *ecdsa.PublicKey, msg, ds []byte) error {
	r := &rd{b: ds}
	h, a := r.u(1), r.u(1)
	sig := r.n(int(r.u(2)))
	if r.bad || len(r.b) != 0 {
		return errors.New("malformed digitally-signed struct")
	}
	if h != 4 || a != 3 {
		return fmt.Errorf("hash/signature algorithm %d/%d", h, a)
	}
	d := sha256.Sum256(msg)
	if !ecdsa.VerifyASN1(pub, d[:], sig) {
		return errors.New("signature does not verify")
	}
	return nil
}

func makeDigSig(key *ecdsa.PrivateKey, msg []byte) []byte {
	d := sha256.Sum256(msg)
	sig, err := key.Sign(rand.Reader, d[:], crypto.SHA256)
	must(err)
	b := []byte{4, 3}
	b = binary.BigEndian.AppendUint16(b, uint16(len(sig)))
	return append(b, sig...)
}

func makeSTH(key *ecdsa.PrivateKey, h Head) []byte {
	b, err := json.Marshal(map[string]any{
		"tree_size": h.Size, "timestamp": h.TS,
		"sha256_root_hash":    h.Root[:],
		"tree_head_signature": makeDigSig(key, headInput(h)),
	})
	must(err)
	return b
}

func verifySTH(data []byte, pub *ecdsa.PublicKey) (Head, error) {
	var j struct {
		TreeSize  *uint64 `json:"tree_size"`
		Timestamp *uint64 `json:"timestamp"`
		Root      []byte  `json:"sha256_root_hash"`
		Sig       []byte  `json:"tree_head_signature"`
	}
	d := json.NewDecoder(bytes.NewReader(data))
	if err := d.Decode(&j); err != nil {
		return Head{}, err
	}
	if j.TreeSize == nil || j.Timestamp == nil || len(j.Root) != 32 {
		return Head{}, errors.New("missing field in get-sth")
	}
	h := Head{*j.TreeSize, *j.Timestamp, Hash(j.Root)}
	return h, checkDigSig(pub, headInput(h), j.Sig)
}

func spkiHash(pub crypto.PublicKey) [32]byte {
	der, err := x509.MarshalPKIXPublicKey(pub)
	must(err)
	return sha256.Sum256(der)
}

func noteKeyHash(name string, pub crypto.PublicKey) uint32 {
	id := spkiHash(pub)
	s := sha256.Sum256(append([]byte(name+"\n\x05"), id[:]...))
	return binary.BigEndian.Uint32(s[:4])
}

func checkpointText(origin string, size uint64, root Hash) string {
	return fmt.Sprintf("%s\n%d\n%s\n", origin, size, base64.StdEncoding.EncodeToString(root[:]))
}

func makeCheckpoint(key *ecdsa.PrivateKey, origin string, h Head) []byte {
	sig := binary.BigEndian.AppendUint32(nil, noteKeyHash(origin, key.Public()))
	sig = binary.BigEndian.AppendUint64(sig, h.TS)
	sig = append(sig, makeDigSig(key, headInput(h))...)
	return []byte(checkpointText(origin, h.Size, h.Root) + "\n\u2014 " + origin + " " + base64.StdEncoding.EncodeToString(sig) + "\n")
}

// verifyCheckpoint accepts exactly a note with one valid signature by the log's key and no extension lines.
func verifyCheckpoint(data []byte, origin string, pub *ecdsa.PublicKey) (Head, error) {
	text, sigs, ok := strings.Cut(string(data), "\n\n")
	if !ok {
		return Head{}, errors.New("no signature block")
	}
	text += "\n"
	lines := strings.Split(text, "\n")
	if len(lines) != 4 || lines[3] != "" {
		return Head{}, errors.New("checkpoint text does not have 3 lines")
	}
	if lines[0] != origin {
		return Head{}, fmt.Errorf("origin %q, want %q", lines[0], origin)
	}
	size, err := strconv.ParseUint(lines[1], 10, 63)
	if err != nil || strconv.FormatUint(size, 10) != lines[1] {
		return Head{}, fmt.Errorf("size %q", lines[1])
	}
	root, err := base64.StdEncoding.Strict().DecodeString(lines[2])
	if err != nil || len(root) != 32 {
		return Head{}, errors.New("bad root hash")
	}
	if !strings.HasSuffix(sigs, "\n") {
		return Head{}, errors.New("unterminated signature line")
	}
	for _, l := range strings.Split(strings.TrimSuffix(sigs, "\n"), "\n") {
		f := strings.Split(l, " ")
		if len(f) != 3 || f[0] != "\u2014" {
			return Head{}, fmt.Errorf("bad signature line %q", l)
		}
		if f[1] != origin {
			continue
		}
		raw, err := base64.StdEncoding.Strict().DecodeString(f[2])
		if err != nil || len(raw) < 12 {
			return Head{}, errors.New("bad signature encoding")
		}
		if binary.BigEndian.Uint32(raw) != noteKeyHash(origin, pub) {
			continue
		}
		h := Head{size, binary.BigEndian.Uint64(raw[4:]), Hash(root)}
		return h, checkDigSig(pub, headInput(h), raw[12:])
	}
	return Head{}, errors.New("no signature by the log")
}

// SCT as answered by add-chain.
type SCT struct {
	Raw       []byte
	Index     uint64
	Timestamp uint64
	Sig       []byte
	ID        []byte
	Ext       []byte
}

func parseSCT(body []byte) (*SCT, error) {
	var j struct {
		Version    *uint8  `json:"sct_version"`
		ID         []byte  `json:"id"`
		Timestamp  *uint64 `json:"timestamp"`
		Extensions string  `json:"extensions"`
		Signature  []byte  `json:"signature"`
	}
	d := json.NewDecoder(bytes.NewReader(body))
	if err := d.Decode(&j); err != nil {
		return nil, err
	}
	if j.Version == nil || *j.Version != 0 || j.Timestamp == nil {
		return nil, errors.New("bad version or timestamp")
	}
	ext, err := base64.StdEncoding.Strict().DecodeString(j.Extensions)
	if err != nil {
		return nil, err
	}
	if len(ext) != 8 || ext[0] != 0 || ext[1] != 0 || ext[2] != 5 {
		return nil, fmt.Errorf("bad extensions %x", ext)
	}
	r := &rd{b: ext[3:]}
	return &SCT{Raw: append([]byte{}, body...), Index: r.u(5), Timestamp: *j.Timestamp, Sig: j.Signature, ID: j.ID, Ext: ext}, nil
}

// entryFor is the entry an SCT for s with the given timestamp and index commits to.
func (s *Sub) entryFor(ts, index uint64) *Entry {
	e := &Entry{TS: ts, Index: index, Pre: s.Pre}
	if s.Pre {
		e.Cert, e.IKH, e.PreCert = s.TBS, s.IssuerKH, s.Full[0]
	} else {
		e.Cert = s.Full[0]
	}
	for _, c := range s.Full[1:] {
		e.Chain = append(e.Chain, sha256.Sum256(c))
	}
	return e
}

// expected extra_data of get-entries for an entry with the given chain certificates.
func extraData(pre bool, precert []byte, chain [][]byte) []byte {
	var l []byte
	for _, c := range chain {
		l = put24(l, c)
	}
	var b []byte
	if pre {
		b = put24(b, precert)
	}
	return put24(b, l)
}

// ---------------------------------------------------------------- index objects

func maskPath(hash []byte, mask int) string {
	s := fmt.Sprintf("%x", hash)[:mask]
	var b strings.Builder
	for i, c := range s {
		if i > 0 && i%2 == 0 {
			b.WriteByte('/')
		}
		b.WriteRune(c)
	}
	return b.String()
}

func le40(v uint64) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32)}
}

func hashRecord(h Hash, index uint64) []byte {
	return append(append([]byte{}, h[:16]...), le40(index)...)
}

func dedupeRecord(fp [32]byte, index, ts uint64) []byte {
	b := append(append([]byte{}, fp[:16]...), le40(index)...)
	return binary.LittleEndian.AppendUint64(b, ts)
}
