package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"golang.org/x/mod/sumdb/note"
	"golang.org/x/mod/sumdb/tlog"
	"itko.dev/internal/sunlight"
)

func init() {
	checks["C17"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one tree head or checkpoint signed by the real code and compared with an independent implementation, one genuine or damaged note put to the real verifier, or one text parsed; " +
			"distinct = (operation, key type, mutation, verdict) combinations",
		Run: runC17,
	}
}

// detSig is the digitally-signed struct that RFC 6979 makes unique.
func detSig(key *ecdsa.PrivateKey, msg []byte) []byte {
	d := sha256.Sum256(msg)
	sig, _, _, _, ok := refSign(key.Curve, key.D, d[:], crypto.SHA256)
	if !ok {
		panic("harness: no signature")
	}
	return append([]byte{4, 3, byte(len(sig) >> 8), byte(len(sig))}, sig...)
}

type noteKey struct {
	name string
	pub  crypto.PublicKey
	sign func(msg []byte) []byte // digitally-signed struct
}

func ecNoteKey(key *ecdsa.PrivateKey) noteKey {
	return noteKey{"ecdsa " + key.Curve.Params().Name, key.Public(), func(m []byte) []byte { return makeDigSig(key, m) }}
}

func rsaNoteKey(bits int) noteKey {
	key, err := rsa.GenerateKey(crand.Reader, bits)
	must(err)
	return noteKey{fmt.Sprintf("rsa %d", bits), key.Public(), func(m []byte) []byte {
		d := sha256.Sum256(m)
		sig, err := rsa.SignPKCS1v15(nil, key, crypto.SHA256, d[:])
		must(err)
		return append([]byte{4, 1, byte(len(sig) >> 8), byte(len(sig))}, sig...)
	}}
}

// refNoteVerify tells whether text and signature are a genuine RFC 6962 note signature by the key.
func refNoteVerify(name string, pub crypto.PublicKey, text string, sig []byte) (ts uint64, ok bool) {
	lines := strings.Split(text, "\n")
	if len(lines) != 4 || lines[3] != "" || lines[0] != name {
		return 0, false
	}
	n, good := new(big.Int).SetString(lines[1], 10)
	if !good || n.Sign() < 0 || n.BitLen() > 63 || n.String() != lines[1] {
		return 0, false
	}
	root, err := base64.StdEncoding.Strict().DecodeString(lines[2])
	if err != nil || len(root) != 32 || base64.StdEncoding.EncodeToString(root) != lines[2] {
		return 0, false
	}
	r := &rd{b: sig}
	ts = r.u(8)
	ha, sa := r.u(1), r.u(1)
	s := r.n(int(r.u(2)))
	if r.bad || len(r.b) > 0 || ha != 4 {
		return 0, false
	}
	d := sha256.Sum256(headInput(Head{n.Uint64(), ts, Hash(root)}))
	switch k := pub.(type) {
	case *ecdsa.PublicKey:
		return ts, sa == 3 && ecdsa.VerifyASN1(k, d[:], s)
	case *rsa.PublicKey:
		return ts, sa == 1 && rsa.VerifyPKCS1v15(k, crypto.SHA256, d[:], s) == nil
	}
	return 0, false
}

func c17origin(rng *rand.Rand) string {
	switch rng.Intn(8) {
	case 0:
		return "a"
	case 1:
		return "ct.example.com/log\u00e9\u4e16"
	case 2:
		return strings.Repeat("x", 1+rng.Intn(500))
	case 3:
		return fmt.Sprintf("https://%d.example/?a=b&c=\"d\"", rng.Intn(1000))
	case 4:
		return "\u2014/--/=="
	}
	return fmt.Sprintf("log%d.example.org/%d", rng.Intn(100), rng.Intn(100000))
}

func c17head(rng *rand.Rand) Head {
	h := Head{Size: uint64(rng.Int63()) >> rng.Intn(63), TS: uint64(rng.Int63()) >> rng.Intn(63)}
	rng.Read(h.Root[:])
	switch rng.Intn(10) {
	case 0:
		h.Size = 0
	case 1:
		h.Size = 1<<63 - 1
	case 2:
		h.TS = 0
	case 3:
		h.TS = 1<<63 - 1
	case 4:
		h.Root = Hash{}
	case 5:
		h.Root = Hash(bytes.Repeat([]byte{0xff}, 32))
	}
	return h
}

func runC17(t *T) {
	c17produce(t)
	c17verify(t)
	c17parse(t)
}

func c17produce(t *T) {
	t.Parallel(t.N(4000, 120000), 8, func(i int) {
		rng := t.Rand(fmt.Sprint("produce", i))
		curve := c15curves[rng.Intn(3)]
		d, kk := c15scalar(rng, curve.Params().N)
		key := keyFromScalar(curve, d)
		h, origin := c17head(rng), c17origin(rng)
		desc := fmt.Sprintf("%v by a key on %s (%s) for origin %q", h, curve.Params().Name, kk, origin)
		var sth, cp []byte
		var e1, e2 error
		if p := safely(func() {
			sth, e1 = sunlight.SignTreeHead(key, h.Size, h.TS, h.Root)
			cp, e2 = sunlight.SignTreeHeadCheckpoint(origin, key, int64(h.Size), int64(h.TS), h.Root)
		}); p != "" || e1 != nil || e2 != nil {
			t.Violate("produce-fails", "signing %s: %v, %v %s", desc, e1, e2, p)
			return
		}
		ds := detSig(key, headInput(h))
		if got, err := verifySTH(sth, &key.PublicKey); err != nil || got != h {
			t.Violate("sth-wrong", "the signed tree head of %s is %s: %v, %v", desc, sth, got, err)
		}
		var j map[string]json.RawMessage
		var sig []byte
		if json.Unmarshal(sth, &j) != nil || json.Unmarshal(j["tree_head_signature"], &sig) != nil || len(j) != 4 || !bytes.Equal(sig, ds) {
			t.Violate("sth-wrong", "the signed tree head of %s has the fields or signature of %s; the signature should be %x", desc, sth, ds)
		}
		if got, err := verifyCheckpoint(cp, origin, &key.PublicKey); err != nil || got != h {
			t.Violate("checkpoint-wrong", "the checkpoint of %s is %q: %v, %v", desc, cp, got, err)
		}
		b := binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint32(nil, noteKeyHash(origin, key.Public())), h.TS)
		want := checkpointText(origin, h.Size, h.Root) + "\n\u2014 " + origin + " " + b64(append(b, ds...)) + "\n"
		if string(cp) != want {
			t.Violate("checkpoint-wrong", "the checkpoint of %s is %q, want %q", desc, cp, want)
		}
		// the log's own verifier takes it
		var ts []uint64
		v, err := sunlight.NewRFC6962Verifier(origin, key.Public(), func(x uint64) { ts = append(ts, x) })
		if err != nil {
			t.Violate("verifier", "no verifier for %s: %v", desc, err)
			return
		}
		n, err := note.Open(cp, note.VerifierList(v))
		if err != nil || n.Text != checkpointText(origin, h.Size, h.Root) || len(ts) != 1 || ts[0] != h.TS {
			t.Violate("verifier", "the checkpoint of %s does not open with the log's verifier: %v, timestamps %v", desc, err, ts)
		}
		t.Eval(fmt.Sprintf("produced/%s/%s", curve.Params().Name, kk))
		if i < 2 {
			t.Sample(map[string]any{"checkpoint": string(cp)})
		}
	})
	// names that a note cannot have
	rng := t.Rand("names")
	key := keyFromScalar(c15curves[0], big.NewInt(77))
	for _, n := range []string{"", "a b", "a+b", "a\nb", "a\tb", "\xff\xfe", "a\u00a0b", "+", " ", "a\u2003", "a\r"} {
		h := c17head(rng)
		var cp []byte
		var err error
		if p := safely(func() { cp, err = sunlight.SignTreeHeadCheckpoint(n, key, int64(h.Size), int64(h.TS), h.Root) }); p != "" || err == nil {
			t.Violate("bad-name", "signing a checkpoint for the impossible origin %q gives %q %s", n, cp, p)
		}
		if p := safely(func() { _, err = sunlight.NewRFC6962Verifier(n, key.Public(), nil) }); p != "" || err == nil {
			t.Violate("bad-name", "a verifier for the impossible name %q is made %s", n, p)
		}
		t.Eval("impossible origin")
	}
}

func c17verify(t *T) {
	var keys []noteKey
	rng := t.Rand("keys")
	for _, c := range c15curves {
		for k := 0; k < 3; k++ {
			d, _ := c15scalar(rng, c.Params().N)
			keys = append(keys, ecNoteKey(keyFromScalar(c, d)))
		}
	}
	keys = append(keys, rsaNoteKey(2048), rsaNoteKey(2048), rsaNoteKey(1024), rsaNoteKey(3072))
	t.Parallel(t.N(4000, 150000), 8, func(i int) {
		rng := t.Rand(fmt.Sprint("verify", i))
		k := keys[rng.Intn(len(keys))]
		name := c17origin(rng)
		h := c17head(rng)
		var ts []uint64
		v, err := sunlight.NewRFC6962Verifier(name, k.pub, func(x uint64) { ts = append(ts, x) })
		if err != nil {
			t.Violate("verifier", "no verifier for name %q and a key %s: %v", name, k.name, err)
			return
		}
		if v.Name() != name || v.KeyHash() != noteKeyHash(name, k.pub) {
			t.Violate("key-hash", "the verifier for %q has name %q and key hash %08x, want %08x", name, v.Name(), v.KeyHash(), noteKeyHash(name, k.pub))
		}
		text := checkpointText(name, h.Size, h.Root)
		ds := k.sign(headInput(h))
		sig := append(binary.BigEndian.AppendUint64(nil, h.TS), ds...)
		judge := func(what string, v note.Verifier, vname string, pub crypto.PublicKey, text string, sig []byte) {
			wts, want := refNoteVerify(vname, pub, text, sig)
			ts = nil
			var got bool
			if p := safely(func() { got = v.Verify([]byte(text), sig) }); p != "" {
				t.Violate("verify-panic", "verifying %q with signature %x (%s, %s) panics: %s", text, sig, k.name, what, p)
				return
			}
			if got && !want {
				t.Violate("accepts "+what, "the verifier for %q (%s) accepts a note with %s: text %.300q, signature %x", vname, k.name, what, text, sig)
			} else if !got && want {
				t.Violate("refuses "+what, "the verifier for %q (%s) refuses a genuine signature (%s): text %.300q, signature %x", vname, k.name, what, text, sig)
			}
			if got && (len(ts) != 1 || ts[0] != wts) || !got && len(ts) != 0 {
				t.Violate("timestamp", "with %s (%s), the timestamps %v are reported for a note of timestamp %d, accepted: %v", what, k.name, ts, wts, got)
			}
			t.Eval(fmt.Sprintf("verify/%s/%s/%v", k.name, what, got))
		}
		judge("nothing changed", v, name, k.pub, text, sig)
		// the text changed
		lines := strings.SplitN(text, "\n", 4)
		join := func(a ...string) string { return strings.Join(a, "\n") + "\n" }
		muts := map[string]string{
			"another origin":                   join("x"+lines[0], lines[1], lines[2]),
			"an empty origin":                  join("", lines[1], lines[2]),
			"another size":                     join(lines[0], fmt.Sprint(h.Size^1<<uint(rng.Intn(62))), lines[2]),
			"a size with a leading zero":       join(lines[0], "0"+lines[1], lines[2]),
			"a size with a plus sign":          join(lines[0], "+"+lines[1], lines[2]),
			"a size with a minus sign":         join(lines[0], "-"+lines[1], lines[2]),
			"a size with a space":              join(lines[0], lines[1]+" ", lines[2]),
			"a size plus 2^64":                 join(lines[0], new(big.Int).Add(new(big.Int).SetUint64(h.Size), new(big.Int).Lsh(big.NewInt(1), 64)).String(), lines[2]),
			"a size in hex":                    join(lines[0], fmt.Sprintf("0x%x", h.Size), lines[2]),
			"an extension line":                join(lines[0], lines[1], lines[2], "ext"),
			"two extension lines":              join(lines[0], lines[1], lines[2], "ext", "x"),
			"an empty line":                    join(lines[0], lines[1], lines[2], ""),
			"no final newline":                 strings.TrimSuffix(text, "\n"),
			"a carriage return in the root":    join(lines[0], lines[1], lines[2][:10]+"\r"+lines[2][10:]),
			"a carriage return after the root": join(lines[0], lines[1], lines[2]+"\r"),
			"a newline in the root":            join(lines[0], lines[1], lines[2][:10], lines[2][10:]),
			"an unpadded root":                 join(lines[0], lines[1], strings.TrimRight(lines[2], "=")),
			"a space after the root":           join(lines[0], lines[1], lines[2]+" "),
			"a zero byte":                      text + "\x00",
			"no text":                          "",
			"one line":                         "x\n",
			"lines swapped":                    join(lines[1], lines[0], lines[2]),
		}
		const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
		if p := strings.IndexByte(alpha, lines[2][42]); p >= 0 {
			muts["other spare bits in the root"] = join(lines[0], lines[1], lines[2][:42]+string(alpha[p^(1+rng.Intn(3))])+"=")
		}
		for what, m := range muts {
			judge(what, v, name, k.pub, m, sig)
		}
		for n := 0; n < 6; n++ {
			b := []byte(text)
			b[rng.Intn(len(b))] ^= 1 << rng.Intn(8)
			judge("a bit of the text flipped", v, name, k.pub, string(b), sig)
		}
		// the signature changed
		sm := map[string][]byte{
			"no signature":               {},
			"a byte after the signature": append(bytes.Clone(sig), 0),
			"a byte less":                sig[:len(sig)-1],
			"half a signature":           sig[:rng.Intn(len(sig))],
			"another timestamp":          append(binary.BigEndian.AppendUint64(nil, h.TS^1<<uint(rng.Intn(63))), ds...),
			"a timestamp over 2^63":      append(binary.BigEndian.AppendUint64(nil, h.TS|1<<63), ds...),
			"an empty signature":         append(bytes.Clone(sig[:8]), 4, ds[1], 0, 0),
			"a signature of zeros":       append(append(bytes.Clone(sig[:8]), ds[:4]...), make([]byte, len(ds)-4)...),
			"another head signed":        append(bytes.Clone(sig[:8]), k.sign(headInput(Head{h.Size + 1, h.TS, h.Root}))...),
			"the text signed":            append(bytes.Clone(sig[:8]), k.sign([]byte(text))...),
			"signed again":               append(bytes.Clone(sig[:8]), k.sign(headInput(h))...),
		}
		o := keys[rng.Intn(len(keys))]
		sm["signed by a key "+o.name] = append(bytes.Clone(sig[:8]), o.sign(headInput(h))...)
		for _, a := range []struct {
			what string
			at   int
		}{{"another hash algorithm", 8}, {"another signature algorithm", 9}, {"another length", 11}} {
			x := bytes.Clone(sig)
			x[a.at] ^= byte(1 << rng.Intn(8))
			sm[a.what] = x
		}
		if _, ec := k.pub.(*ecdsa.PublicKey); ec {
			// the same numbers in sloppy DER
			raw := ds[4:]
			mk := func(der []byte) []byte {
				return append(append(bytes.Clone(sig[:8]), 4, 3, byte(len(der)>>8), byte(len(der))), der...)
			}
			if len(raw) > 2 && raw[1] < 0x80 {
				sm["long-form DER"] = mk(append([]byte{raw[0], 0x81, raw[1]}, raw[2:]...))
				sm["junk after the DER"] = mk(append(bytes.Clone(raw), 0))
				x := append([]byte{raw[0], raw[1] + 1, 2, raw[3] + 1, 0}, raw[4:]...)
				sm["a padded integer"] = mk(x)
			}
		} else {
			sm["shortened RSA signature"] = append(append(bytes.Clone(sig[:8]), 4, 1, byte((len(ds)-5)>>8), byte(len(ds)-5)), ds[5:]...)
		}
		for what, m := range sm {
			judge(what, v, name, k.pub, text, m)
		}
		for n := 0; n < 5; n++ {
			b := bytes.Clone(sig)
			b[rng.Intn(len(b))] ^= 1 << rng.Intn(8)
			judge("a bit of the signature flipped", v, name, k.pub, text, b)
		}
		// another key or name
		if v2, err := sunlight.NewRFC6962Verifier(name, o.pub, func(x uint64) { ts = append(ts, x) }); err == nil {
			judge("another key, "+o.name, v2, name, o.pub, text, sig)
		}
		if v2, err := sunlight.NewRFC6962Verifier(name+"x", k.pub, func(x uint64) { ts = append(ts, x) }); err == nil {
			judge("another name", v2, name+"x", k.pub, text, sig)
		}
		// whole notes
		kh := noteKeyHash(name, k.pub)
		line := func(nm string, kh uint32, sig []byte) string {
			return "\u2014 " + nm + " " + b64(append(binary.BigEndian.AppendUint32(nil, kh), sig...)) + "\n"
		}
		junk := make([]byte, 70)
		rng.Read(junk)
		for what, m := range map[string]struct {
			note string
			ok   bool
		}{
			"genuine":                              {text + "\n" + line(name, kh, sig), true},
			"with an unknown signature before":     {text + "\n" + line("other", 5, junk) + line(name, kh, sig), true},
			"with an unknown signature after":      {text + "\n" + line(name, kh, sig) + line(name, kh+1, junk), true},
			"with another key hash":                {text + "\n" + line(name, kh^1<<uint(rng.Intn(32)), sig), false},
			"with another name":                    {text + "\n" + line(name+"x", kh, sig), false},
			"with only an unknown signature":       {text + "\n" + line("other", 5, junk), false},
			"without a signature":                  {text + "\n", false},
			"with a bad and a good signature":      {text + "\n" + line(name, kh, junk) + line(name, kh, sig), false},
			"with an extension line":               {text + "ext\n\n" + line(name, kh, sig), false},
			"for another origin with the old name": {"x" + text + "\n" + line(name, kh, sig), false},
		} {
			ts = nil
			var n *note.Note
			var err error
			if p := safely(func() { n, err = note.Open([]byte(m.note), note.VerifierList(v)) }); p != "" {
				t.Violate("verify-panic", "opening a note %s panics: %s", what, p)
				continue
			}
			if (err == nil) != m.ok {
				t.Violate("note "+what, "opening a note %s (%s): %v; note %q", what, k.name, err, m.note)
			}
			if err == nil && n.Text != text {
				t.Violate("note "+what, "opening a note %s gives the text %q", what, n.Text)
			}
			t.Eval(fmt.Sprintf("note/%s/%s/%v", what, k.name, err == nil))
		}
	})
	// a key of a type that RFC 6962 does not know never verifies anything
	pub, priv, err := ed25519.GenerateKey(crand.Reader)
	must(err)
	var v note.Verifier
	if p := safely(func() { v, err = sunlight.NewRFC6962Verifier("a", pub, nil) }); p != "" {
		t.Violate("verify-panic", "a verifier for an Ed25519 key panics: %s", p)
	} else if err == nil {
		rng := t.Rand("ed")
		for alg := 0; alg < 256; alg++ {
			h := c17head(rng)
			text := checkpointText("a", h.Size, h.Root)
			s := ed25519.Sign(priv, headInput(h))
			sig := append(binary.BigEndian.AppendUint64(nil, h.TS), append([]byte{4, byte(alg), 0, 64}, s...)...)
			var got bool
			if p := safely(func() { got = v.Verify([]byte(text), sig) }); p != "" || got {
				t.Violate("ed25519", "a verifier for an Ed25519 key with signature algorithm %d: accepts %v %s", alg, got, p)
			}
			t.Eval("verify/ed25519")
		}
	}
}

func c17parse(t *T) {
	t.Parallel(t.N(8000, 300000), 8, func(i int) {
		rng := t.Rand(fmt.Sprint("parse", i))
		h := c17head(rng)
		c := sunlight.Checkpoint{Origin: c17origin(rng), Tree: tlog.Tree{N: int64(h.Size), Hash: tlog.Hash(h.Root)}}
		if rng.Intn(3) == 0 {
			c.Origin += " with + spaces"
		}
		for n := rng.Intn(4); n > 0; n-- {
			c.Extension += fmt.Sprintf("ext %d\t\u00e9%s\n", n, strings.Repeat("y", rng.Intn(30)))
		}
		want := checkpointText(c.Origin, h.Size, h.Root) + c.Extension
		var text string
		if p := safely(func() { text = sunlight.FormatCheckpoint(c) }); p != "" || text != want {
			t.Violate("format", "the checkpoint %+v formats as %q, want %q %s", c, text, want, p)
			return
		}
		var got sunlight.Checkpoint
		var err error
		if p := safely(func() { got, err = sunlight.ParseCheckpoint(text) }); p != "" || err != nil || got != c {
			t.Violate("parse", "the checkpoint text %q parses as %+v, %v %s", text, got, err, p)
			return
		}
		t.Eval(fmt.Sprintf("format and parse/extensions %v", c.Extension != ""))
		for n := 0; n < 12; n++ {
			b := []byte(text)
			how := ""
			switch rng.Intn(6) {
			case 0:
				b[rng.Intn(len(b))] ^= 1 << rng.Intn(8)
				how = "a bit flipped"
			case 1:
				b = b[:rng.Intn(len(b)+1)]
				how = "cut"
			case 2:
				o := rng.Intn(len(b) + 1)
				b = append(b[:o:o], append([]byte{"\n\r =0+-\x00\x0b"[rng.Intn(9)]}, b[o:]...)...)
				how = "a character inserted"
			case 3:
				o := rng.Intn(len(b))
				b = append(b[:o:o], b[o+1:]...)
				how = "a character removed"
			case 4:
				l := strings.Split(text, "\n")
				a, z := rng.Intn(len(l)), rng.Intn(len(l))
				l[a], l[z] = l[z], l[a]
				b = []byte(strings.Join(l, "\n"))
				how = "lines swapped"
			case 5:
				// spare bits and line breaks in the root
				l := strings.SplitN(text, "\n", 4)
				const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
				p := strings.IndexByte(alpha, l[2][42])
				l[2] = l[2][:42] + string(alpha[p^rng.Intn(4)]) + "="
				if rng.Intn(2) == 0 {
					o := rng.Intn(45)
					l[2] = l[2][:o] + "\r" + l[2][o:]
				}
				b = []byte(strings.Join(l, "\n"))
				how = "the root encoded differently"
			}
			s := string(b)
			if p := safely(func() { got, err = sunlight.ParseCheckpoint(s) }); p != "" {
				t.Violate("parse-panic", "parsing the checkpoint text %q panics: %s", s, p)
				return
			}
			if err == nil {
				if f := sunlight.FormatCheckpoint(got); f != s {
					t.Violate("not inverse: "+how, "the checkpoint text %q (%s) is accepted, but formats as %q", s, how, f)
				}
			}
			t.Eval(fmt.Sprintf("parse/%s/%v", how, err == nil))
		}
	})
	for how, x := range map[string]string{
		"a negative size": "a\n-5\nAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=\n", "the size -0": "a\n-0\nAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=\n",
		"a size beyond 63 bits": "a\n9223372036854775808\nAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=\n", "a size beyond 64 bits": "a\n18446744073709551617\nAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=\n",
		"a short root": "a\n5\nAAAA\n", "a long root": "a\n5\nAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA\n", "no root": "a\n5\n", "no size": "a\n\nAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=\n",
	} {
		var err error
		var got sunlight.Checkpoint
		if p := safely(func() { got, err = sunlight.ParseCheckpoint(x) }); p != "" || err == nil {
			t.Violate("parse", "a checkpoint text with %s is accepted: %q gives %+v %s", how, x, got, p)
		}
		t.Eval("parse/" + how)
	}
	for _, n := range []int{999_000, 1_000_001, 3_000_000} {
		s := checkpointText("a", 5, Hash{1}) + strings.Repeat("x", n) + "\n"
		var err error
		var got sunlight.Checkpoint
		if p := safely(func() { got, err = sunlight.ParseCheckpoint(s) }); p != "" || err == nil && sunlight.FormatCheckpoint(got) != s {
			t.Violate("parse-panic", "a checkpoint text of %d bytes: %v %s", len(s), err, p)
		}
		t.Eval("parse/huge")
	}
}
