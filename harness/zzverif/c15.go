package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	_ "crypto/md5"
	_ "crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/asn1"
	"encoding/hex"
	"fmt"
	"hash"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync"

	"itko.dev/internal/rfc6979"
	"itko.dev/internal/sunlight"
)

func init() {
	checks["C15"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one signature compared byte for byte with an independent RFC 6979 implementation (math/big) and verified with crypto/ecdsa, or one unsupported curve refused; " +
			"distinct = (curve, hash, kind of key, kind of digest, number of rejected nonce candidates, concurrency) combinations",
		Run: runC15,
	}
	helpers["c15first"] = c15first
	// Hash functions with many outputs that are no valid nonces make the rejection loop run; with real hash functions
	// it would take 2^32 tries. These identifiers have no implementation linked in.
	crypto.RegisterHash(crypto.MD4, func() hash.Hash { return &toyHash{h: sha256.New(), n: 32} })
	crypto.RegisterHash(crypto.RIPEMD160, func() hash.Hash { return &toyHash{h: sha512.New(), n: 64} })
	crypto.RegisterHash(crypto.BLAKE2s_256, func() hash.Hash { return &toyHash{h: sha256.New(), n: 20} })
}

// toyHash is a hash function of which some outputs have many ones or zeros.
type toyHash struct {
	h hash.Hash
	n int
}

func (t *toyHash) Write(b []byte) (int, error) { return t.h.Write(b) }
func (t *toyHash) Reset()                      { t.h.Reset() }
func (t *toyHash) Size() int                   { return t.n }
func (t *toyHash) BlockSize() int              { return t.h.BlockSize() }
func (t *toyHash) Sum(b []byte) []byte {
	s := t.h.Sum(nil)[:t.n]
	fill, n := byte(0), 0
	switch s[t.n-1] & 7 {
	case 0, 1:
		fill, n = 0xff, t.n
	case 2:
		fill, n = 0, t.n
	case 3:
		fill, n = 0xff, t.n-1
	case 4:
		fill, n = 0, t.n-1
	}
	for i := 0; i < n; i++ {
		s[i] = fill
	}
	return append(b, s...)
}

// refSign is RFC 6979 by the book; rejected counts the nonce candidates that were no good.
func refSign(curve elliptic.Curve, d *big.Int, digest []byte, h crypto.Hash) (sig []byte, r, s *big.Int, rejected int, ok bool) {
	q := curve.Params().N
	qlen := q.BitLen()
	rlen := (qlen + 7) / 8
	bits2int := func(b []byte) *big.Int {
		x := new(big.Int).SetBytes(b)
		if n := 8 * len(b); n > qlen {
			x.Rsh(x, uint(n-qlen))
		}
		return x
	}
	octets := func(x *big.Int) []byte { return x.FillBytes(make([]byte, rlen)) }
	z2 := new(big.Int).Mod(bits2int(digest), q)
	mac := func(k []byte, v ...[]byte) []byte {
		m := hmac.New(h.New, k)
		for _, x := range v {
			m.Write(x)
		}
		return m.Sum(nil)
	}
	x, h1 := octets(d), octets(z2)
	V := bytes.Repeat([]byte{1}, h.Size())
	K := make([]byte, h.Size())
	K = mac(K, V, []byte{0}, x, h1)
	V = mac(K, V)
	K = mac(K, V, []byte{1}, x, h1)
	V = mac(K, V)
	for ; rejected < 200; rejected++ {
		var T []byte
		for 8*len(T) < qlen {
			V = mac(K, V)
			T = append(T, V...)
		}
		k := bits2int(T)
		if k.Sign() > 0 && k.Cmp(q) < 0 {
			rx, _ := curve.ScalarBaseMult(octets(k))
			r = new(big.Int).Mod(rx, q)
			s = new(big.Int).Mul(r, d)
			s.Add(s, z2)
			s.Mul(s, new(big.Int).ModInverse(k, q))
			s.Mod(s, q)
			if r.Sign() != 0 && s.Sign() != 0 {
				sig, err := asn1.Marshal(struct{ R, S *big.Int }{r, s})
				must(err)
				return sig, r, s, rejected, true
			}
			return nil, nil, nil, rejected, false
		}
		K = mac(K, V, []byte{0})
		V = mac(K, V)
	}
	return nil, nil, nil, rejected, false // the toy hash function runs in a circle
}

var c15curves = []elliptic.Curve{elliptic.P256(), elliptic.P384(), elliptic.P521()}

var c15hashes = []crypto.Hash{crypto.SHA256, crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA1, crypto.SHA224, crypto.SHA512_256, crypto.MD5, crypto.MD4, crypto.RIPEMD160, crypto.BLAKE2s_256}

func hashName(h crypto.Hash) string {
	switch h {
	case crypto.MD4:
		return "toy 256 bits"
	case crypto.RIPEMD160:
		return "toy 512 bits"
	case crypto.BLAKE2s_256:
		return "toy 160 bits"
	}
	return h.String()
}

func c15scalar(rng *rand.Rand, q *big.Int) (*big.Int, string) {
	rnd := func(bits int) *big.Int {
		b := make([]byte, (bits+7)/8)
		rng.Read(b)
		x := new(big.Int).SetBytes(b)
		x.Rsh(x, uint(8*len(b)-bits))
		return x
	}
	one := big.NewInt(1)
	var d *big.Int
	kind := ""
	switch rng.Intn(8) {
	case 0:
		d, kind = big.NewInt(int64(1+rng.Intn(3))), "tiny"
	case 1:
		d, kind = new(big.Int).Sub(q, big.NewInt(int64(1+rng.Intn(3)))), "near the order"
	case 2:
		d, kind = rnd(1+rng.Intn(q.BitLen()-9)), "short"
	case 3:
		d, kind = new(big.Int).Lsh(one, uint(rng.Intn(q.BitLen()-1))), "power of two"
	case 4:
		d, kind = new(big.Int).Rsh(q, 1), "half the order"
	default:
		d, kind = rnd(q.BitLen()), "random"
	}
	d.Mod(d, q)
	if d.Sign() == 0 {
		d = one
	}
	return d, kind
}

func c15digest(rng *rand.Rand, q *big.Int, h crypto.Hash) ([]byte, string) {
	rlen := (q.BitLen() + 7) / 8
	fill := func(n int, v byte) []byte { return bytes.Repeat([]byte{v}, n) }
	rnd := func(n int) []byte {
		b := make([]byte, n)
		rng.Read(b)
		return b
	}
	switch rng.Intn(12) {
	case 0:
		return []byte{}, "empty"
	case 1:
		return fill(h.Size(), 0), "zero"
	case 2:
		return fill(h.Size(), 0xff), "ones"
	case 3:
		return fill(rlen, 0xff), "ones of the order's length"
	case 4:
		return q.FillBytes(make([]byte, rlen)), "the order"
	case 5:
		return new(big.Int).Sub(q, big.NewInt(int64(1+rng.Intn(2)))).FillBytes(make([]byte, rlen)), "just below the order"
	case 6:
		return new(big.Int).Add(q, big.NewInt(int64(1+rng.Intn(200)))).FillBytes(make([]byte, rlen)), "just above the order"
	case 7:
		return rnd(1 + rng.Intn(rlen-1)), "short"
	case 8:
		return rnd(rlen - 1 + rng.Intn(3)), "about the order's length"
	case 9:
		return rnd(rlen + 1 + rng.Intn(100)), "long"
	case 10:
		// the order, shifted to where a long digest has it
		x := new(big.Int).Lsh(q, uint(8*rlen-q.BitLen()))
		return append(x.FillBytes(make([]byte, rlen)), rnd(rng.Intn(20))...), "the order, as leading bits"
	}
	return rnd(h.Size()), "random"
}

// safely calls f and turns a panic into an error.
func safely(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	f()
	return ""
}

func c15one(curve elliptic.Curve, d *big.Int, digest []byte, h crypto.Hash, key *ecdsa.PrivateKey) (rejected int, skipped bool, bad string) {
	want, _, _, rejected, ok := refSign(curve, d, digest, h)
	if !ok {
		return rejected, true, ""
	}
	dg := bytes.Clone(digest)
	var got []byte
	var err error
	if p := safely(func() { got, err = rfc6979.Sign(key, dg, h) }); p != "" {
		return rejected, false, "panic: " + p
	}
	switch {
	case err != nil:
		return rejected, false, "error: " + err.Error()
	case !bytes.Equal(got, want):
		return rejected, false, fmt.Sprintf("got %x, RFC 6979 prescribes %x", got, want)
	case !bytes.Equal(dg, digest):
		return rejected, false, "the digest was modified"
	case key.D.Cmp(d) != 0:
		return rejected, false, "the key was modified"
	case !ecdsa.VerifyASN1(&key.PublicKey, digest, got):
		return rejected, false, fmt.Sprintf("signature %x does not verify", got)
	}
	return rejected, false, ""
}

func runC15(t *T) {
	// the oracle itself against a vector of the RFC (A.2.5, P-256, SHA-256, "sample")
	d, _ := new(big.Int).SetString("C9AFA9D845BA75166B5C215767B1D6934E50C3DB36E89B127B8A622B120F6721", 16)
	dg := sha256.Sum256([]byte("sample"))
	_, r, s, _, _ := refSign(elliptic.P256(), d, dg[:], crypto.SHA256)
	if fmt.Sprintf("%X %X", r, s) != "EFD48B2AACB6A8FD1140DD9CD45E81D69D2C877B56AAF991C34D0EA84EAF3716 F7CB1C942D657C41D436C7A1B6E29F65F3E900DBB9AFF4064DC4AB2F843ACDA8" {
		panic("harness: the RFC 6979 reference is wrong")
	}
	groups := t.N(3000, 100000)
	t.Parallel(groups, 8, func(g int) {
		rng := t.Rand(fmt.Sprint("group", g))
		curve := c15curves[g%3]
		d, kind := c15scalar(rng, curve.Params().N)
		key := keyFromScalar(curve, d)
		for k := 0; k < 24; k++ {
			h := c15hashes[rng.Intn(len(c15hashes))]
			digest, dk := c15digest(rng, curve.Params().N, h)
			rej, skip, bad := c15one(curve, d, digest, h, key)
			if skip {
				t.Count("toy hash inputs without a nonce", 1)
				continue
			}
			if bad != "" {
				t.Violate(fmt.Sprintf("%s %s %s", curve.Params().Name, hashName(h), firstLine(bad)[:min(20, len(firstLine(bad)))]), "curve %s, key %x (%s), hash %s, digest %x (%s), %d candidates rejected before: %s", curve.Params().Name, d, kind, hashName(h), digest, dk, rej, bad)
				return
			}
			t.Eval(fmt.Sprintf("%s/%s/%s/%s/rejected %d", curve.Params().Name, hashName(h), kind, dk, min(rej, 3)))
			if rej > 0 {
				t.Count("signatures with rejected nonce candidates", 1)
			}
			if g < 3 && k == 0 {
				t.Sample(map[string]any{"curve": curve.Params().Name, "key": kind, "digest": dk, "hash": hashName(h), "rejected": rej})
			}
		}
	})
	// the same key and digest, signed by many goroutines at once
	t.Parallel(t.N(90, 3000), 2, func(g int) {
		rng := t.Rand(fmt.Sprint("concurrent", g))
		curve := c15curves[g%3]
		d, _ := c15scalar(rng, curve.Params().N)
		key := keyFromScalar(curve, d)
		digest, dk := c15digest(rng, curve.Params().N, crypto.SHA256)
		msg := make([]byte, rng.Intn(500))
		rng.Read(msg)
		md := sha256.Sum256(msg)
		wantDS, _, _, _, _ := refSign(curve, d, md[:], crypto.SHA256)
		var wg sync.WaitGroup
		for k := 0; k < 16; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if _, _, bad := c15one(curve, d, digest, crypto.SHA256, key); bad != "" {
					t.Violate("concurrent", "curve %s, key %x, digest %x, with 16 goroutines signing: %s", curve.Params().Name, d, digest, bad)
				}
				ds, err := sunlight.DigitallySign(key, msg)
				want := append([]byte{4, 3, byte(len(wantDS) >> 8), byte(len(wantDS))}, wantDS...)
				if err != nil || !bytes.Equal(ds, want) {
					t.Violate("digitally-signed", "curve %s, key %x, message %x: the digitally-signed struct is %x (%v), want %x", curve.Params().Name, d, msg, ds, err, want)
				}
				t.Eval("concurrent/" + curve.Params().Name + "/" + dk)
			}()
		}
		wg.Wait()
	})
	// curves that are not supported
	odd := *elliptic.P256().Params()
	odd.Name = "P-256x"
	odd.Gx, odd.Gy = elliptic.P256().Params().ScalarBaseMult([]byte{7})
	for _, c := range []elliptic.Curve{elliptic.P224(), &odd} {
		for k := 0; k < 20; k++ {
			rng := t.Rand(fmt.Sprint("odd", k))
			d, _ := c15scalar(rng, c.Params().N)
			x, y := c.ScalarBaseMult(d.Bytes())
			key := &ecdsa.PrivateKey{D: d, PublicKey: ecdsa.PublicKey{Curve: c, X: x, Y: y}}
			digest, _ := c15digest(rng, c.Params().N, crypto.SHA256)
			var sig []byte
			var err error
			if p := safely(func() { sig, err = rfc6979.Sign(key, digest, crypto.SHA256) }); p != "" {
				t.Violate("unsupported-panic", "signing with the unsupported curve %s panics: %s", c.Params().Name, p)
			} else if err == nil {
				t.Violate("unsupported-accepted", "signing with the unsupported curve %s returns %x", c.Params().Name, sig)
			} else if len(sig) != 0 {
				t.Violate("unsupported-accepted", "signing with the unsupported curve %s returns an error and %x", c.Params().Name, sig)
			}
			t.Eval("unsupported curve/" + c.Params().Name)
		}
	}
	// the very first signatures of a process, made concurrently
	t.Parallel(t.N(12, 200), 4, func(i int) {
		out, err := helperCmd("c15first", fmt.Sprint(t.Seed*1000+int64(i))).CombinedOutput()
		if err != nil || string(out) != "OK\n" {
			t.Violate("first-use", "the first signatures of a process, made concurrently: %v %s", err, tailStr(string(out), 800))
		}
		t.Eval("first use")
	})
	if !t.Failed() && t.Get("signatures with rejected nonce candidates") < 50 {
		t.Inconclusive("the rejection loop hardly ran")
	}
}

func c15first(args []string) {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < 24; k++ {
		rng := rand.New(rand.NewSource(seed*100 + int64(k)))
		curve := c15curves[rng.Intn(3)]
		d, _ := c15scalar(rng, curve.Params().N)
		key := keyFromScalar(curve, d)
		digest, _ := c15digest(rng, curve.Params().N, crypto.SHA384)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			var sig []byte
			var err error
			p := safely(func() { sig, err = rfc6979.Sign(key, digest, crypto.SHA384) })
			want, _, _, _, _ := refSign(curve, d, digest, crypto.SHA384)
			if p != "" || err != nil || !bytes.Equal(sig, want) {
				fmt.Printf("BAD %s %s: %v %s %s\n", curve.Params().Name, hex.EncodeToString(digest), err, p, hex.EncodeToString(sig))
				os.Exit(0)
			}
		}()
	}
	close(start)
	wg.Wait()
	fmt.Println("OK")
}
