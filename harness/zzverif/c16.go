package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"

	"itko.dev/internal/sunlight"
)

func init() {
	checks["C16"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one entry encoded and decoded, one byte string decoded, or one extension list made or parsed by the real codec, with the result compared with an independent codec; " +
			"distinct = (operation, shape of the entry or mutation, verdict) combinations",
		Run: runC16,
	}
}

func c16entry(rng *rand.Rand) (*Entry, string) {
	e := &Entry{Pre: rng.Intn(2) == 0}
	size := func() int {
		switch rng.Intn(20) {
		case 0:
			return 0
		case 1:
			return 1
		case 2:
			return 255 + rng.Intn(3)
		case 3:
			return 65535 + rng.Intn(3)
		case 4:
			if rng.Intn(60) == 0 {
				return 1<<24 - 1 - rng.Intn(2)
			}
		case 5:
			return rng.Intn(100000)
		}
		return rng.Intn(300)
	}
	fill := func(n int) []byte {
		b := make([]byte, n)
		rng.Read(b)
		return b
	}
	e.Cert = fill(size())
	if e.Pre {
		copy(e.IKH[:], fill(32))
		e.PreCert = fill(size())
	}
	n := rng.Intn(5)
	switch rng.Intn(12) {
	case 0:
		n = 7 + rng.Intn(3)
	case 1:
		n = 255 + rng.Intn(3)
	case 2:
		n = []int{0, 2047, 2046, 1024}[rng.Intn(4)]
	}
	for ; n > 0; n-- {
		e.Chain = append(e.Chain, [32]byte(fill(32)))
	}
	e.TS = uint64(rng.Int63()) >> rng.Intn(63)
	switch rng.Intn(8) {
	case 0:
		e.TS = 0
	case 1:
		e.TS = 1<<63 - 1
	}
	e.Index = uint64(rng.Int63()) & (1<<40 - 1) >> rng.Intn(40)
	switch rng.Intn(8) {
	case 0:
		e.Index = 1<<40 - 1
	case 1:
		e.Index = 1 << (8 * rng.Intn(5))
	case 2:
		e.Index = 1<<(8*(1+rng.Intn(4))) - 1
	}
	cls := func(n int) string {
		switch {
		case n == 0:
			return "0"
		case n < 256:
			return "<2^8"
		case n < 65536:
			return "<2^16"
		}
		return "<2^24"
	}
	return e, fmt.Sprintf("pre %v/cert %s/precert %s/chain %s", e.Pre, cls(len(e.Cert)), cls(len(e.PreCert)), cls(len(e.Chain)*32))
}

// toLog makes the codec's representation, with noise in what is to be ignored.
func toLog(rng *rand.Rand, e *Entry) *sunlight.LogEntry {
	l := &sunlight.LogEntry{Certificate: e.Cert, IsPrecert: e.Pre, Timestamp: int64(e.TS), LeafIndex: e.Index, ChainFp: e.Chain, CertificateFp: e.FP()}
	if e.Pre {
		l.IssuerKeyHash, l.PreCertificate = e.IKH, e.PreCert
	} else if rng.Intn(3) == 0 {
		rng.Read(l.IssuerKeyHash[:])
		l.PreCertificate = []byte("ignored")
	}
	return l
}

func diffLog(l *sunlight.LogEntry, e *Entry) string {
	switch {
	case l == nil:
		return "no entry"
	case !bytes.Equal(l.Certificate, e.Cert):
		return "certificate"
	case l.IsPrecert != e.Pre:
		return "type"
	case e.Pre && l.IssuerKeyHash != e.IKH:
		return "issuer key hash"
	case e.Pre && !bytes.Equal(l.PreCertificate, e.PreCert):
		return "precertificate"
	case len(l.ChainFp) != len(e.Chain):
		return fmt.Sprintf("%d fingerprints instead of %d", len(l.ChainFp), len(e.Chain))
	case uint64(l.Timestamp) != e.TS:
		return "timestamp"
	case l.LeafIndex != e.Index:
		return fmt.Sprintf("index %d instead of %d", l.LeafIndex, e.Index)
	case l.CertificateFp != e.FP():
		return "certificate fingerprint"
	}
	for i, f := range l.ChainFp {
		if f != e.Chain[i] {
			return fmt.Sprintf("fingerprint %d", i)
		}
	}
	return ""
}

// c16decode judges the decoder on any bytes.
func c16decode(t *T, rng *rand.Rand, b []byte, what string) {
	// the bytes after the input are there, but must not matter
	big := make([]byte, len(b)+200)
	copy(big, b)
	rng.Read(big[len(b):])
	in := big[:len(b)]
	orig := bytes.Clone(big)
	var l *sunlight.LogEntry
	var rest []byte
	var err error
	if p := safely(func() { l, rest, err = sunlight.ReadTileLeaf(in) }); p != "" {
		t.Violate("decode-panic", "decoding %s of %d bytes (%.400x) panics: %s", what, len(b), b, p)
		return
	}
	if !bytes.Equal(big, orig) {
		t.Violate("decode-writes", "decoding %s changes its input", what)
	}
	e, wrest, werr := decodeTileLeaf(b)
	t.Eval(fmt.Sprintf("decode/%s/accepted %v", what, err == nil))
	if err != nil {
		if werr == nil {
			t.Violate("decode-refuses", "decoding %s of %d bytes (%.400x), a valid tile leaf, fails: %v", what, len(b), b, err)
		}
		return
	}
	if werr != nil {
		t.Violate("decode-accepts", "decoding %s of %d bytes (%.400x) succeeds, although it is malformed: %v", what, len(b), b, werr)
		return
	}
	if d := diffLog(l, e); d != "" {
		t.Violate("decode-wrong", "decoding %s of %d bytes (%.400x) gives the wrong %s", what, len(b), b, d)
		return
	}
	if !bytes.Equal(rest, wrest) {
		t.Violate("decode-rest", "decoding %s of %d bytes leaves %d bytes, want %d", what, len(b), len(rest), len(wrest))
		return
	}
	var enc []byte
	if p := safely(func() { enc = sunlight.AppendTileLeaf(nil, l) }); p != "" || !bytes.Equal(enc, b[:len(b)-len(rest)]) {
		t.Violate("reencode", "%s of %d bytes (%.400x) re-encodes to other bytes (%.400x) %s", what, len(b), b, enc, p)
	}
}

// c16mutate damages a tile.
func c16mutate(rng *rand.Rand, e *Entry, b []byte) ([]byte, string) {
	c := bytes.Clone(b)
	// offsets of the length and type fields
	off := []int{8, 9}
	p := 10
	if e.Pre {
		p += 32
	}
	off = append(off, p, p+1, p+2)
	p += 3 + len(e.Cert)
	off = append(off, p, p+1, p+2, p+3, p+4, p+5)
	p += 2 + 8
	if e.Pre {
		off = append(off, p, p+1, p+2)
		p += 3 + len(e.PreCert)
	}
	off = append(off, p, p+1)
	switch rng.Intn(9) {
	case 0:
		return c[:rng.Intn(len(c)+1)], "cut"
	case 1:
		c[rng.Intn(len(c))] ^= 1 << rng.Intn(8)
		return c, "a bit flipped"
	case 2, 3, 4:
		o := off[rng.Intn(len(off))]
		switch rng.Intn(4) {
		case 0:
			c[o]++
		case 1:
			c[o]--
		case 2:
			c[o] ^= 1 << rng.Intn(8)
		default:
			c[o] = byte(rng.Intn(256))
		}
		return c, "a length or type changed"
	case 5:
		o := rng.Intn(len(c) + 1)
		x := make([]byte, 1+rng.Intn(40))
		rng.Read(x)
		return append(c[:o:o], append(x, c[o:]...)...), "bytes inserted"
	case 6:
		o := rng.Intn(len(c))
		n := min(1+rng.Intn(40), len(c)-o)
		return append(c[:o:o], c[o+n:]...), "bytes removed"
	case 7:
		// another extension list of the right total length, or of any
		x := make([]byte, rng.Intn(30))
		switch rng.Intn(6) {
		case 0:
			x = append(extBytes(e.Index), extBytes(e.Index+1)...)
		case 1:
			x = append(extBytes(e.Index), 0)
		case 2:
			x = []byte{0, 0, 6, 0, 1, 2, 3, 4, 5}
		case 3:
			x = []byte{0, 0, 4, 1, 2, 3, 4}
		case 4:
			x = append([]byte{1, 0, 1, 9}, extBytes(e.Index)...)
		}
		p := off[5]
		d := bytes.Clone(c[:p])
		d = binary.BigEndian.AppendUint16(d, uint16(len(x)))
		return append(append(d, x...), c[p+10:]...), "another extension list"
	default:
		p := off[len(off)-2]
		n := uint16(len(e.Chain)*32 + []int{1, -1, 31, 16, 32, -32, 33, 65535}[rng.Intn(8)])
		binary.BigEndian.PutUint16(c[p:], n)
		if rng.Intn(2) == 0 {
			x := make([]byte, 40)
			rng.Read(x)
			c = append(c, x...)
		}
		return c, "another fingerprint length"
	}
}

func runC16(t *T) {
	n := t.N(50000, 2000000)
	t.Parallel(n, 8, func(i int) {
		rng := t.Rand(fmt.Sprint("entry", i))
		e, shape := c16entry(rng)
		l := toLog(rng, e)
		// encode, after something that must stay as it is, in a buffer with and without room
		pre := make([]byte, rng.Intn(50), 50+rng.Intn(2)*4096)
		rng.Read(pre)
		orig := bytes.Clone(pre)
		var enc, leaf []byte
		if p := safely(func() { enc = sunlight.AppendTileLeaf(pre, l); leaf = l.MerkleTreeLeaf() }); p != "" {
			t.Violate("encode-panic", "encoding an entry (%s, index %d, timestamp %d) panics: %s", shape, e.Index, e.TS, p)
			return
		}
		want := e.TileLeaf()
		switch {
		case !bytes.Equal(pre, orig) || len(enc) < len(orig) || !bytes.Equal(enc[:len(orig)], orig):
			t.Violate("encode-prefix", "appending an entry (%s) changes the tile before it", shape)
		case !bytes.Equal(enc[len(orig):], want):
			t.Violate("encode-wrong", "the tile leaf of an entry (%s, index %d, timestamp %d) is %.300x, want %.300x", shape, e.Index, e.TS, enc[len(orig):], want)
		case !bytes.Equal(leaf, e.Leaf()):
			t.Violate("leaf-wrong", "the Merkle tree leaf of an entry (%s, index %d, timestamp %d) is %.300x, want %.300x", shape, e.Index, e.TS, leaf, e.Leaf())
		}
		t.Eval("encode/" + shape)
		// decode it, followed by nothing, another entry, or anything
		tail := []byte{}
		switch rng.Intn(3) {
		case 0:
			o, _ := c16entry(rng)
			tail = o.TileLeaf()
		case 1:
			tail = make([]byte, rng.Intn(70))
			rng.Read(tail)
		}
		full := append(bytes.Clone(want), tail...)
		c16decode(t, rng, full, "an entry/"+shape)
		for k := 0; k < 6 && len(full) < 200000; k++ {
			b, how := c16mutate(rng, e, full)
			c16decode(t, rng, b, how)
		}
		if i%4 == 0 {
			b := make([]byte, rng.Intn(120))
			rng.Read(b)
			if len(b) > 10 && rng.Intn(4) > 0 {
				b[0] &= 0x7f
				b[8], b[9] = 0, byte(rng.Intn(3))
				for k := 10; k < len(b); k++ {
					if rng.Intn(3) > 0 {
						b[k] = byte(rng.Intn(2) * rng.Intn(40))
					}
				}
			}
			c16decode(t, rng, b, "random bytes")
		}
		// extensions
		var x []byte
		var err error
		if p := safely(func() { x, err = sunlight.MarshalExtensions(sunlight.Extensions{LeafIndex: e.Index}) }); p != "" || err != nil || !bytes.Equal(x, extBytes(e.Index)) {
			t.Violate("ext-wrong", "the extensions of index %d are %x (%v %s), want %x", e.Index, x, err, p, extBytes(e.Index))
		}
		t.Eval("extensions/made")
		for k := 0; k < 8; k++ {
			c16ext(t, rng, e.Index)
		}
		if i < 3 {
			t.Sample(map[string]any{"entry": shape, "index": e.Index, "timestamp": e.TS, "tile leaf bytes": len(want), "sha256 of leaf": fmt.Sprintf("%x", sha256.Sum256(leaf))})
		}
	})
	// what does not fit is refused
	rng := t.Rand("unfit")
	for i := 0; i < t.N(3000, 50000); i++ {
		e, _ := c16entry(rng)
		l := toLog(rng, e)
		how := ""
		switch i % 7 {
		default:
			l.LeafIndex = 1<<40 + uint64(rng.Int63())>>rng.Intn(60)
			if l.LeafIndex < 1<<40 || i%5 == 0 {
				l.LeafIndex = []uint64{1 << 40, 1<<64 - 1, 1<<41 | 5, 1 << 63, 1 << 48}[rng.Intn(5)]
			}
			how = "index"
			var x []byte
			var err error
			if p := safely(func() { x, err = sunlight.MarshalExtensions(sunlight.Extensions{LeafIndex: l.LeafIndex}) }); p == "" && err == nil {
				t.Violate("unfit-index", "extensions for the leaf index %d (over 40 bits) are made: %x", l.LeafIndex, x)
			}
			if p := safely(func() { x = l.MerkleTreeLeaf() }); p == "" {
				t.Violate("unfit-index", "a Merkle tree leaf for the leaf index %d (over 40 bits) is made: ...%x", l.LeafIndex, x[max(0, len(x)-16):])
			}
		case 5:
			for len(l.ChainFp) < 2048+i%3*2048 {
				l.ChainFp = append(l.ChainFp, [32]byte{byte(len(l.ChainFp))})
			}
			how = "chain"
		case 6:
			if i > 100 {
				continue
			}
			l.Certificate = make([]byte, 1<<24+rng.Intn(3))
			how = "certificate"
		}
		if p := safely(func() { _ = sunlight.AppendTileLeaf(nil, l) }); p == "" {
			t.Violate("unfit-"+how, "an entry whose %s does not fit (index %d, %d fingerprints, %d certificate bytes) is encoded into a tile", how, l.LeafIndex, len(l.ChainFp), len(l.Certificate))
		}
		t.Eval("does not fit/" + how)
	}
}

// c16ext judges the parser of extension lists.
func c16ext(t *T, rng *rand.Rand, index uint64) {
	var x []byte
	what := []string{}
	for n := rng.Intn(4); n >= 0; n-- {
		switch rng.Intn(7) {
		case 0, 1, 2:
			x = append(x, extBytes(index)...)
			what = append(what, "index")
		case 3, 4:
			d := make([]byte, rng.Intn(9))
			rng.Read(d)
			x = append(x, byte(1+rng.Intn(255)), 0, byte(len(d)))
			x = append(x, d...)
			what = append(what, "unknown")
		case 5:
			d := make([]byte, rng.Intn(9))
			rng.Read(d)
			x = append(x, 0, 0, byte(len(d)))
			x = append(x, d...)
			what = append(what, "type 0")
		case 6:
			d := make([]byte, rng.Intn(6))
			rng.Read(d)
			x = append(x, d...)
			what = append(what, "junk")
		}
	}
	if rng.Intn(4) == 0 && len(x) > 0 {
		x = x[:rng.Intn(len(x))]
		what = append(what, "cut")
	}
	var got sunlight.Extensions
	var err error
	in := append(bytes.Clone(x), 0, 0, 5, 1, 2, 3, 4, 5)[:len(x)]
	if p := safely(func() { got, err = sunlight.ParseExtensions(in) }); p != "" {
		t.Violate("ext-panic", "parsing the extensions %x panics: %s", x, p)
		return
	}
	// reference: the first leaf_index extension; what follows it may be ignored or looked at
	r := &rd{b: x}
	found, ok := false, true
	var want uint64
	for len(r.b) > 0 && !found && ok {
		typ := r.u(1)
		d := r.n(int(r.u(2)))
		if r.bad {
			ok = false
			break
		}
		if typ == 0 {
			found = true
			if len(d) != 5 {
				ok = false
				break
			}
			y := &rd{b: d}
			want = y.u(5)
		}
	}
	valid := found && ok
	rest := valid && len(r.b) > 0
	switch {
	case err == nil && !valid:
		t.Violate("ext-accepts", "the extensions %x have no valid leaf index, but parse as index %d", x, got.LeafIndex)
	case err == nil && got.LeafIndex != want:
		t.Violate("ext-value", "the extensions %x parse as index %d, want %d", x, got.LeafIndex, want)
	case err != nil && valid && !rest:
		t.Violate("ext-refuses", "the extensions %x (index %d) are refused: %v", x, want, err)
	}
	t.Eval(fmt.Sprintf("extensions parsed/%s/accepted %v", strings.Join(what, " "), err == nil))
}
