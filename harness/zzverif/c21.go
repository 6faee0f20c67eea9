package main

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"itko.dev/internal/ctsetup"
	"itko.dev/internal/ctsubmit"
)

func init() {
	checks["C21"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one setup run of the real code in a process of its own, followed by checks of the storage, of the log's start, of the read API, or of one root's acceptance; " +
			"distinct = (kind of root or bundle, storage kind, first / repeated / running / failing setup, log size class) combinations",
		Run: runC21,
	}
	helpers["c21setup"] = func(args []string) {
		var a setupArgs
		must(json.Unmarshal([]byte(args[0]), &a))
		ctsetup.MainMain(context.Background(), a.Consul, a.KV, a.Roots, a.Key, a.GC)
		fmt.Println("SETUP RETURNED")
	}
}

type setupArgs struct {
	Consul, KV, Roots, Key string
	GC                     ctsubmit.GlobalConfig
}

// runSetup runs the real setup; ok says that it reported success.
func runSetup(a setupArgs) (ok bool, out string) {
	b, err := json.Marshal(a)
	must(err)
	cmd := helperCmd("c21setup", string(b))
	timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	defer timer.Stop()
	o, err := cmd.CombinedOutput()
	return err == nil && strings.Contains(string(o), "SETUP RETURNED"), string(o)
}

// ---------------------------------------------------------------- roots of many kinds

var rsaBySize sync.Map

func rsaOf(bits int) *rsa.PrivateKey {
	if k, ok := rsaBySize.Load(bits); ok {
		return k.(*rsa.PrivateKey)
	}
	k, err := rsa.GenerateKey(rand.Reader, bits)
	must(err)
	rsaBySize.Store(bits, k)
	return k
}

// c21root is one trust anchor with the key to issue under it.
type c21root struct {
	kind string
	ca   *CA
}

func rootKinds() []string {
	return []string{"P-256", "P-384", "P-521", "P-224", "RSA-2048", "RSA-3072", "RSA-4096", "expired", "not yet valid", "no validity end", "no common name", "unicode subject", "long subject",
		"big serial", "zero path length", "version 1", "empty subject key id", "unknown critical extension", "name constraints", "EKU serverAuth", "key usage absent", "big",
		"bad SAN IP", "empty AIA", "empty EKU", "bad SCT list", "bad printable string", "bad name constraint", "odd utf8 in teletex", "negative serial", "same subject other key", "same key other certificate", "same name and key identifier, other key", "SHA-384", "SHA-512"}
}

// makeRoot builds a self-signed certificate; prev is an earlier root to collide with.
func (p *PKI) makeRoot(kind string, prev *CA) *CA {
	ser := p.nextSerial()
	var key crypto.Signer = detKey(elliptic.P256(), fmt.Sprintf("%s/%s/%v", p.salt, kind, ser))
	t := &x509.Certificate{
		SerialNumber: ser, Subject: pkix.Name{CommonName: fmt.Sprintf("Root %s %v", p.salt, ser), Organization: []string{"verif"}},
		NotBefore: p.start.AddDate(-5, 0, 0), NotAfter: p.limit.AddDate(10, 0, 0),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign,
	}
	ext := func(oid asn1.ObjectIdentifier, crit bool, der []byte) {
		t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: oid, Critical: crit, Value: der})
	}
	rawName := func(tag byte, s string) []byte {
		attr := func(oid []byte, tag byte, v string) []byte {
			atv := append(append([]byte{}, oid...), append([]byte{tag, byte(len(v))}, v...)...)
			seq := append([]byte{0x30, byte(len(atv))}, atv...)
			return append([]byte{0x31, byte(len(seq))}, seq...)
		}
		rd := append(attr([]byte{6, 3, 0x55, 4, 10}, tag, s), attr([]byte{6, 3, 0x55, 4, 3}, 12, fmt.Sprintf("R%v", ser))...)
		return append([]byte{0x30, byte(len(rd))}, rd...)
	}
	negative := false
	switch kind {
	case "P-384":
		key = detKey(elliptic.P384(), fmt.Sprintf("%s/%v", p.salt, ser))
	case "P-521":
		key = detKey(elliptic.P521(), fmt.Sprintf("%s/%v", p.salt, ser))
	case "P-224":
		key = detKey(elliptic.P224(), fmt.Sprintf("%s/%v", p.salt, ser))
	case "RSA-2048":
		key = rsaOf(2048)
	case "RSA-3072":
		key = rsaOf(3072)
	case "RSA-4096":
		key = rsaOf(4096)
	case "SHA-384":
		key, t.SignatureAlgorithm = rsaOf(2048), x509.SHA384WithRSA
	case "SHA-512":
		key, t.SignatureAlgorithm = rsaOf(2048), x509.SHA512WithRSA
	case "Ed25519":
		h := sha256.Sum256([]byte(fmt.Sprintf("%s/%v", p.salt, ser)))
		key = ed25519.NewKeyFromSeed(h[:])
	case "expired":
		t.NotBefore, t.NotAfter = time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2009, 1, 1, 0, 0, 0, 0, time.UTC)
	case "not yet valid":
		t.NotBefore, t.NotAfter = time.Date(2070, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC)
	case "no validity end":
		t.NotAfter = time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)
	case "no common name":
		t.Subject = pkix.Name{Organization: []string{fmt.Sprintf("only %v %s", ser, p.salt)}}
	case "unicode subject":
		t.Subject.Organization = []string{"Főtanúsítvány – 証明書 \x7f"}
	case "long subject":
		t.Subject.Organization = []string{strings.Repeat("x", 3000)}
	case "big serial":
		t.SerialNumber = new(big.Int).Lsh(ser, 150)
	case "zero path length":
		t.MaxPathLenZero = true
	case "unknown critical extension":
		ext(asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 99999, 7}, true, []byte{5, 0})
	case "name constraints":
		t.PermittedDNSDomains, t.PermittedDNSDomainsCritical = []string{"example"}, true
	case "EKU serverAuth":
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	case "key usage absent":
		t.KeyUsage = 0
	case "big":
		ext(oidPadding, false, bytes.Repeat([]byte{7}, 40000))
	case "bad SAN IP":
		ext(asn1.ObjectIdentifier{2, 5, 29, 17}, false, []byte{0x30, 7, 0x87, 5, 1, 2, 3, 4, 5})
	case "empty AIA":
		ext(asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 1}, false, []byte{0x30, 0})
	case "empty EKU":
		ext(asn1.ObjectIdentifier{2, 5, 29, 37}, false, []byte{0x30, 0})
	case "bad SCT list":
		ext(asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 2}, false, []byte{4, 3, 0, 9, 1})
	case "bad name constraint":
		ext(asn1.ObjectIdentifier{2, 5, 29, 30}, false, []byte{0x30, 10, 0xa0, 8, 0x30, 6, 0x82, 4, '.', '.', 'a', '.'})
	case "bad printable string":
		t.RawSubject = rawName(19, "a@b_c&*")
	case "odd utf8 in teletex":
		t.RawSubject = rawName(20, "caf\xe9 \xc3")
	case "negative serial":
		negative = true
	case "same subject other key":
		if prev != nil {
			t.RawSubject = prev.Cert.RawSubject
		}
	case "same name and key identifier, other key":
		if prev != nil {
			t.RawSubject = prev.Cert.RawSubject
		}
	case "same key other certificate":
		if prev != nil {
			t.RawSubject, key = prev.Cert.RawSubject, prev.Key
		}
	}
	t.SubjectKeyId = subjKeyID(key.Public())
	if kind == "same name and key identifier, other key" && prev != nil {
		t.SubjectKeyId = prev.Cert.SubjectKeyId
	}
	if kind == "empty subject key id" {
		t.SubjectKeyId = nil
	}
	raw, err := x509.CreateCertificate(rand.Reader, t, t, key.Public(), key)
	must(err)
	if kind == "version 1" || negative {
		raw = patchTBS(raw, key, kind == "version 1", negative)
	}
	spki, err := x509.MarshalPKIXPublicKey(key.Public())
	must(err)
	// what issuing under it needs, whether the standard library likes the certificate or not
	c := &x509.Certificate{Raw: raw, RawSubject: t.RawSubject, Subject: t.Subject, SubjectKeyId: t.SubjectKeyId, PublicKey: key.Public(), RawSubjectPublicKeyInfo: spki,
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	if c.RawSubject == nil {
		der, err := asn1.Marshal(t.Subject.ToRDNSequence())
		must(err)
		c.RawSubject = der
	}
	return &CA{Cert: c, Raw: raw, Key: key}
}

// patchTBS makes a version 1 certificate or a negative serial number, and signs again (P-256 keys).
func patchTBS(raw []byte, key crypto.Signer, v1, negative bool) []byte {
	var cert struct {
		TBS asn1.RawValue
		Alg asn1.RawValue
		Sig asn1.BitString
	}
	_, err := asn1.Unmarshal(raw, &cert)
	must(err)
	var parts []asn1.RawValue
	rest := cert.TBS.Bytes
	for len(rest) > 0 {
		var v asn1.RawValue
		rest, err = asn1.Unmarshal(rest, &v)
		must(err)
		parts = append(parts, v)
	}
	var tbs []byte
	for i, p := range parts {
		if v1 && (i == 0 || i == len(parts)-1) {
			continue
		}
		if negative && i == 1 {
			b := append([]byte{}, p.FullBytes...)
			b[2] |= 0x80
			p.FullBytes = b
		}
		tbs = append(tbs, p.FullBytes...)
	}
	full, err := asn1.Marshal(asn1.RawValue{Class: 0, Tag: 16, IsCompound: true, Bytes: tbs})
	must(err)
	h := sha256.Sum256(full)
	sig, err := ecdsa.SignASN1(rand.Reader, key.(*ecdsa.PrivateKey), h[:])
	must(err)
	out, err := asn1.Marshal(struct {
		TBS, Alg asn1.RawValue
		Sig      asn1.BitString
	}{asn1.RawValue{FullBytes: full}, asn1.RawValue{FullBytes: cert.Alg.FullBytes}, asn1.BitString{Bytes: sig, BitLength: 8 * len(sig)}})
	must(err)
	return out
}

// bundleText writes roots as a bundle file, in one of several styles.
func bundleText(rng *mrand.Rand, roots [][]byte) []byte {
	var b bytes.Buffer
	style := rng.Intn(6)
	for i, r := range roots {
		if style == 1 || style == 2 {
			fmt.Fprintf(&b, "# root number %d\nSubject: C=XX, O=verif -- %d\n\n", i, i)
		}
		if style == 3 && i%2 == 0 {
			pem.Encode(&b, &pem.Block{Type: "X509 CRL", Bytes: []byte{1, 2, 3}})
		}
		pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: r})
	}
	out := b.Bytes()
	switch style {
	case 2, 4:
		out = bytes.ReplaceAll(out, []byte("\n"), []byte("\r\n"))
	case 5:
		out = bytes.TrimSpace(out)
	}
	return out
}

func derSet(certs [][]byte) string {
	m := map[string]bool{}
	for _, c := range certs {
		m[string(c)] = true
	}
	var r []string
	for c := range m {
		r = append(r, c)
	}
	sort.Strings(r)
	return strings.Join(r, "|")
}

// ---------------------------------------------------------------- the check

type c21log struct {
	t    *T
	w    *World
	gw   *Gateway
	kv   string
	kind string // fs or s3
	file string // the bundle
}

func newC21log(t *T, fs bool, o WorldOpt) *c21log {
	o.FS, o.Setup, o.Open = fs, true, false
	w := NewWorld(o)
	l := &c21log{t: t, w: w, kv: w.Name + "/setup", kind: "s3"}
	if fs {
		l.kind = "fs"
		w.Opt.NoAudit = true
	}
	l.gw = env.S3.Gateway(w.Store, w.Name+"-setup")
	l.file = filepath.Join(env.Dir, w.Name+".pem")
	return l
}

func (l *c21log) close() {
	l.w.Close()
	os.Remove(l.file)
}

func (l *c21log) setup() (bool, string) {
	return runSetup(setupArgs{env.Consul.Addr, l.kv, l.file, l.w.KeyPath, l.w.Config(l.gw.Name)})
}

func (l *c21log) bad(sig, f string, args ...any) {
	l.t.ViolateW("setup-"+sig, l.w.Store.TryTail(20), "%s: %s", l.kind, fmt.Sprintf(f, args...))
}

// head reads and verifies the stored head.
func (l *c21log) head() (Head, error) {
	d, ok := l.w.Get("ct/v1/get-sth")
	if !ok {
		return Head{}, fmt.Errorf("there is no head")
	}
	return verifySTH(d, &l.w.Key.PublicKey)
}

// judgeRoots compares the stored and the served roots with the bundle.
func (l *c21log) judgeRoots(roots [][]byte, what string) {
	mon, _ := l.w.Monitor()
	r := call(mon, "GET", "/ct/v1/get-roots", nil, 0)
	var j struct {
		Certificates [][]byte `json:"certificates"`
	}
	if r.Code != 200 || r.Panic != "" || r.Hung {
		l.bad("roots", "%s: get-roots: %v", what, r)
		return
	}
	if err := json.Unmarshal(r.Body, &j); err != nil {
		l.bad("roots", "%s: get-roots: %v", what, err)
		return
	}
	if derSet(j.Certificates) != derSet(roots) {
		l.bad("roots", "%s: get-roots lists %d certificates which are not the %d of the bundle", what, len(j.Certificates), len(roots))
	}
}

// judgeEmpty checks what the read API says about a log without entries.
func (l *c21log) judgeEmpty(since time.Time) {
	mon, _ := l.w.Monitor()
	m := &MonClient{H: mon}
	h, err := m.STH(l.w)
	if err != nil {
		l.bad("head", "get-sth after setup: %v", err)
		return
	}
	if h.Size != 0 || h.Root != emptyRoot {
		l.bad("head", "head after setup: size %d root %x", h.Size, h.Root)
	}
	if ms := uint64(since.UnixMilli()); h.TS+1000 < ms || h.TS > uint64(time.Now().UnixMilli())+1000 {
		l.bad("head", "head after setup has timestamp %d, setup ran at %d", h.TS, ms)
	}
	r := m.get("/ct/v1/get-sth-consistency?first=0&second=0")
	if r.Code != 200 || r.Panic != "" || r.Hung {
		l.bad("consistency", "get-sth-consistency 0..0 of the empty log: %v", r)
	} else if err := m.judgeConsistency(l.w, 0, 0, r); err != nil {
		l.bad("consistency", "get-sth-consistency 0..0 of the empty log: %v", err)
	}
	for _, q := range []string{"get-entries?start=0&end=0", "get-entry-and-proof?leaf_index=0&tree_size=0", "get-entry-and-proof?leaf_index=0&tree_size=1", "get-sth-consistency?first=0&second=1",
		"get-proof-by-hash?hash=" + esc(bytes.Repeat([]byte{3}, 32)) + "&tree_size=0"} {
		if err := m.refused("/ct/v1/" + q); err != nil {
			l.bad("empty", "%s on the empty log: %v", q, err)
		}
	}
	l.t.Eval("empty log read/" + l.kind)
}

func runC21(t *T) {
	if t.Thorough {
		rsaOf(4096)
	}
	rsaOf(2048)
	rsaOf(3072)
	rsaOf(4096)
	var jobs []func()
	for k := 0; k < t.N(10, 60); k++ {
		jobs = append(jobs, func() { c21life(t, k) })
	}
	for _, fs := range []bool{false, true} {
		jobs = append(jobs, func() { c21production(t, fs) })
	}
	for k := 0; k < t.N(6, 30); k++ {
		jobs = append(jobs, func() { c21faults(t, k) })
	}
	for k := 0; k < t.N(4, 20); k++ {
		jobs = append(jobs, func() { c21running(t, k) })
	}
	t.Parallel(len(jobs), 8, func(i int) { jobs[i]() })
}

var c21cats = cats("sct-malformed", "sct-entry", "sct-id", "sct-sig", "head-sig", "head-shrink", "head-time", "head-root")

// submitUnder sends certificates and precertificates issued under a root and requires SCTs.
func (l *c21log) submitUnder(in *Inst, rng *mrand.Rand, r c21root, led *Ledger) {
	p := l.w.PKI
	subs := []*Sub{p.Issue(r.ca, leafOpt{rng: rng}), p.Issue(r.ca, leafOpt{rng: rng, omitRoot: true, pre: true})}
	mid := p.NewCA(r.ca, caOpt{})
	subs = append(subs, p.Issue(mid, leafOpt{rng: rng, omitRoot: rng.Intn(2) == 0, pre: rng.Intn(2) == 0}))
	for _, s := range subs {
		sct, resp := in.MustClient(l.t, s, led, c21cats)
		if sct == nil {
			l.bad("anchor:"+r.kind, "a chain of %d under a root of kind %q (precertificate %v) is refused: %v", len(s.Chain), r.kind, s.Pre, resp)
		}
		l.t.Eval(fmt.Sprintf("anchor/%s/pre=%v/depth %d/%s", r.kind, s.Pre, len(s.Full), l.kind))
	}
}

// boot starts the log from what setup left, nothing else.
func (l *c21log) boot() (*Inst, error) {
	return l.w.bootFrom(l.kv, l.gw)
}

// c21life: setup with generated bundles, start, use, setup again at various times, start again.
func c21life(t *T, k int) {
	rng := t.Rand(fmt.Sprint("life", k))
	l := newC21log(t, k%2 == 1, WorldOpt{Mask: []int{5, 1, 3, 2, 32}[k%5], FlushMs: 10})
	defer l.close()
	w := l.w
	kinds := rootKinds()
	rng.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	mk := func(n int) (r []c21root, ders [][]byte) {
		var prev *CA
		for i := 0; i < n; i++ {
			kind := kinds[0]
			kinds = append(kinds[1:], kind)
			ca := w.PKI.makeRoot(kind, prev)
			prev = ca
			r = append(r, c21root{kind, ca})
			ders = append(ders, ca.Raw)
		}
		if rng.Intn(3) == 0 && len(ders) > 1 { // listed twice
			ders = append(ders, ders[0])
		}
		return
	}
	var led Ledger
	var before Head
	started := false
	all := map[string]c21root{}
	for gen := 0; gen < t.N(4, 8) && !t.Failed(); gen++ {
		n := []int{1, 2, 5, 12, 20}[rng.Intn(5)]
		roots, ders := mk(n)
		if gen > 0 { // the instance that used the last one is gone
			l.gw = env.S3.Gateway(w.Store, fmt.Sprintf("%s-g%d", w.Name, gen))
		}
		must(os.WriteFile(l.file, bundleText(rng, ders), 0644))
		for rep := 0; rep < 1+rng.Intn(2); rep++ {
			at := time.Now()
			before, _ = l.head()
			ok, out := l.setup()
			what := fmt.Sprintf("setup %d with %d roots on a log of size %d", gen, len(roots), before.Size)
			if !ok {
				l.bad("fails", "%s fails: %s", what, out)
				return
			}
			h, err := l.head()
			if err != nil {
				l.bad("head", "%s: %v", what, err)
				return
			}
			if h.Size < before.Size || h.TS < before.TS {
				l.bad("rollback", "%s replaces the head of size %d at %d by size %d at %d", what, before.Size, before.TS, h.Size, h.TS)
				return
			}
			if before.Size > 0 && h.Root != before.Root {
				l.bad("rollback", "%s changes the root of the log", what)
			}
			l.judgeRoots(ders, what)
			if !started && gen == 0 && rep == 0 {
				l.judgeEmpty(at)
			}
			t.Eval(fmt.Sprintf("setup/%s/roots %d/size %s/repeated=%v", l.kind, len(roots), sizeClass(h.Size), gen+rep > 0))
		}
		if rng.Intn(5) == 0 && gen > 0 {
			continue // set up again without a start in between
		}
		in, err := l.boot()
		if err != nil {
			l.bad("start", "the log does not start after setup with roots %v: %v", kindsOf(roots), err)
			return
		}
		started = true
		for i, r := range roots {
			all[string(r.ca.Raw)] = r
			if i < t.N(6, 20) {
				l.submitUnder(in, rng, r, &led)
			}
		}
		// a burst, so that later setups find logs of various sizes
		var wg sync.WaitGroup
		r0 := roots[rng.Intn(len(roots))]
		for i := 0; i < []int{0, 3, 60, 250}[rng.Intn(4)]; i++ {
			s := w.PKI.Issue(r0.ca, leafOpt{rng: rng})
			wg.Add(1)
			go func() {
				defer wg.Done()
				in.MustClient(t, s, &led, c21cats)
			}()
		}
		wg.Wait()
		// roots of earlier bundles that this one does not list
		for _, r := range all {
			if listed(roots, r) {
				continue
			}
			s := w.PKI.Issue(r.ca, leafOpt{rng: rng})
			w.Aud.Register(s)
			if resp := in.Submit(s); resp.Code == 200 && resp.Panic == "" && !resp.Hung && !sameIssuer(roots, r) {
				l.bad("old-anchor", "a chain under a root that the current bundle does not list is accepted: %v", resp)
			}
			t.Eval("no longer listed/" + l.kind)
			break
		}
		in.Quiesce()
	}
	l.judgeGrown(&led)
	t.Drain(c21cats, w)
}

func kindsOf(roots []c21root) (r []string) {
	for _, x := range roots {
		r = append(r, x.kind)
	}
	return
}

func listed(roots []c21root, r c21root) bool {
	for _, x := range roots {
		if bytes.Equal(x.ca.Raw, r.ca.Raw) {
			return true
		}
	}
	return false
}

// sameIssuer: a listed root has the same name and key, so that it certifies the same chains.
func sameIssuer(roots []c21root, r c21root) bool {
	for _, x := range roots {
		if bytes.Equal(x.ca.Cert.RawSubject, r.ca.Cert.RawSubject) {
			return true
		}
	}
	return false
}

// judgeGrown: the log that was set up is a complete log holding every promised entry.
func (l *c21log) judgeGrown(led *Ledger) {
	w := l.w
	if l.kind == "fs" {
		d, ok := w.Get("ct/v1/get-sth")
		if !ok {
			return
		}
		w.Aud.onPut(&Op{Method: "PUT", Key: "ct/v1/get-sth", Data: d}, w.Get)
	}
	mon, _ := w.Monitor()
	m := &MonClient{H: mon}
	n := w.Aud.Size()
	for i, p := range led.All() {
		if i%7 != 0 && i > 20 {
			continue
		}
		if p.SCT.Index >= n {
			l.bad("lost", "an SCT has index %d, the log has %d entries", p.SCT.Index, n)
			return
		}
		if err := m.CheckEntries(w, p.SCT.Index, p.SCT.Index, n); err != nil {
			l.bad("lost", "entry %d of %d: %v", p.SCT.Index, n, err)
			return
		}
		if err := m.CheckEntryAndProof(w, p.SCT.Index, n); err != nil {
			l.bad("lost", "entry %d of %d: %v", p.SCT.Index, n, err)
			return
		}
	}
	if n > 0 {
		r := m.get(fmt.Sprintf("/ct/v1/get-sth-consistency?first=0&second=%d", n))
		if r.Code != 200 || m.judgeConsistency(w, 0, n, r) != nil {
			l.bad("consistency", "get-sth-consistency from the empty tree to %d: %v", n, r)
		}
		if err := m.CheckConsistency(w, 1, n); err != nil {
			l.bad("consistency", "%v", err)
		}
	}
	l.t.Eval("grown log read/" + l.kind + "/" + sizeClass(n))
}

// c21production: the bundle the log is run with; a root itself is a chain that ends in a root.
func c21production(t *T, fs bool) {
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	b, err := os.ReadFile(filepath.Join(repo, "ct2025.itko.dev.bundle.pem"))
	if err != nil {
		t.Count("production bundle missing", 1)
		return
	}
	rng := t.Rand(fmt.Sprint("production", fs))
	l := newC21log(t, fs, WorldOpt{FlushMs: 5, Start: time.Date(1980, 1, 1, 0, 0, 0, 0, time.UTC), Limit: time.Date(9980, 1, 1, 0, 0, 0, 0, time.UTC)})
	defer l.close()
	var ders [][]byte
	for rest := b; ; {
		var blk *pem.Block
		if blk, rest = pem.Decode(rest); blk == nil {
			break
		}
		if blk.Type == "CERTIFICATE" {
			ders = append(ders, blk.Bytes)
		}
	}
	own := c21root{"with the production bundle", l.w.PKI.makeRoot("P-256", nil)}
	ders = append(ders, own.ca.Raw)
	must(os.WriteFile(l.file, append(append(b, '\n'), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: own.ca.Raw})...), 0644))
	at := time.Now()
	if ok, out := l.setup(); !ok {
		l.bad("production", "setup with the production bundle fails: %s", out)
		return
	}
	l.judgeRoots(ders, "production bundle")
	l.judgeEmpty(at)
	in, err := l.boot()
	if err != nil {
		l.bad("production", "the log does not start with the production bundle: %v", err)
		return
	}
	var led Ledger
	l.w.PKI.start, l.w.PKI.limit = time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	l.submitUnder(in, rng, own, &led)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 60)
	for i, d := range ders {
		if i >= t.N(250, 100000) && rng.Intn(3) > 0 {
			continue
		}
		s := &Sub{ID: -i - 1, FP: sha256.Sum256(d), Full: [][]byte{d}, Chain: [][]byte{d}, Kind: "production root"}
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			if sct, r := in.MustClient(t, s, &led, c21cats); sct == nil {
				l.bad("production-anchor", "root %x of the production bundle is not accepted as the end of a chain: %v", s.FP, r)
			}
			t.Eval("production root/" + l.kind)
		}()
	}
	wg.Wait()
	in.Quiesce()
	l.judgeGrown(&led)
	t.Drain(c21cats, l.w)
	t.Count("production roots submitted", int64(len(led.All())))
}

// c21faults: setup with unusable input or failing storage leaves an existing log as it is.
func c21faults(t *T, k int) {
	rng := t.Rand(fmt.Sprint("faults", k))
	l := newC21log(t, false, WorldOpt{FlushMs: 10})
	defer l.close()
	w := l.w
	root := c21root{"P-256", w.PKI.makeRoot("P-256", nil)}
	must(os.WriteFile(l.file, bundleText(rng, [][]byte{root.ca.Raw}), 0644))
	if ok, out := l.setup(); !ok {
		l.bad("fails", "%s", out)
		return
	}
	var led Ledger
	in, err := l.boot()
	if err != nil {
		l.bad("start", "%v", err)
		return
	}
	for i := 0; i < 1+rng.Intn(4); i++ {
		l.submitUnder(in, rng, root, &led)
	}
	in.Quiesce()
	good, _ := l.head()
	w.Store.observers = append(w.Store.observers, func(op *Op, get func(string) ([]byte, bool)) {
		if op.Key != "ct/v1/get-sth" {
			return
		}
		h, err := verifySTH(op.Data, &w.Key.PublicKey)
		if err != nil || h.Size < good.Size || h.TS < good.TS {
			go l.bad("rollback", "a setup run with injected failures writes a head of size %d at %d over size %d at %d (%v)", h.Size, h.TS, good.Size, good.TS, err)
		}
	})
	l.gw = env.S3.Gateway(w.Store, w.Name+"-again")
	type fault struct {
		name string
		pol  func(op *Op) Action
	}
	match := func(method, key string, a Action) func(op *Op) Action {
		return func(op *Op) Action {
			if (method == "" || op.Method == method) && (key == "" || op.Key == key) {
				return a
			}
			return Action{}
		}
	}
	fl := []fault{
		{"head lookup refused", match("HEAD", "ct/v1/get-sth", Action{Status: 403})},
		{"reads refused", func(op *Op) Action {
			if op.Method != "PUT" {
				return Action{Status: 403}
			}
			return Action{}
		}},
		{"reads fail", func(op *Op) Action {
			if op.Method != "PUT" {
				return Action{Status: 400}
			}
			return Action{}
		}},
		{"everything refused", match("", "", Action{Status: 403, Drop: true})},
		{"roots refused", match("PUT", "ct/v1/get-roots", Action{Status: 403, Drop: true})},
		{"roots applied but answered with an error", match("PUT", "ct/v1/get-roots", Action{Status: 403})},
		{"slow", match("", "", Action{Delay: 30 * time.Millisecond})},
	}
	if k < t.N(1, 6) { // the client repeats the request for seconds
		fl = append(fl, fault{"head lookup unavailable", match("HEAD", "ct/v1/get-sth", Action{Status: 503})}, fault{"reads throttled", func(op *Op) Action {
			if op.Method != "PUT" {
				return Action{Status: 500}
			}
			return Action{}
		}})
	}
	for _, f := range fl {
		l.gw.SetPolicy(f.pol)
		l.setup()
		l.gw.SetPolicy(nil)
		h, err := l.head()
		if err != nil || h.Size < good.Size || h.TS < good.TS || h.Root != good.Root {
			l.bad("rollback", "setup with %s: head is now size %d at %d (%v), was size %d at %d", f.name, h.Size, h.TS, err, good.Size, good.TS)
			return
		}
		l.judgeRoots([][]byte{root.ca.Raw}, "setup with "+f.name)
		t.Eval("failing setup/" + f.name)
	}
	// unusable input: reported, and nothing of the log is touched
	snap := w.Store.Snapshot()
	noKey := filepath.Join(env.Dir, w.Name+"-none")
	garbled := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: root.ca.Raw[:len(root.ca.Raw)-9]})
	for name, content := range map[string][]byte{"empty bundle": {}, "text": []byte("no certificates here\n"), "cut certificate": garbled, "cut certificate after a good one": append(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: root.ca.Raw}), garbled...), "missing": nil} {
		f := filepath.Join(env.Dir, w.Name+"-bad.pem")
		os.Remove(f)
		if content != nil {
			must(os.WriteFile(f, content, 0644))
		}
		ok, out := runSetup(setupArgs{env.Consul.Addr, l.kv + "x", f, w.KeyPath, w.Config(l.gw.Name)})
		if ok {
			l.bad("accepts", "setup with bundle file %q succeeds: %s", name, out)
		}
		os.Remove(f)
		t.Eval("unusable bundle/" + name)
	}
	ok, _ := runSetup(setupArgs{env.Consul.Addr, l.kv + "x", l.file, noKey, w.Config(l.gw.Name)})
	if ok {
		l.bad("accepts", "setup without a key file succeeds")
	}
	t.Eval("missing key file")
	for key, d := range w.Store.Snapshot() {
		if !bytes.Equal(snap[key], d) {
			l.bad("touched", "setup with unusable input writes %s", key)
		}
	}
	// a log of which only some objects are there (a crash in its very first batch, or an operator who lost some)
	for _, key := range []string{"checkpoint", "ct/v1/get-roots", "tile/0/000.p/1", "int/", "tile/"} {
		lost := map[string][]byte{}
		for k, d := range w.Store.Snapshot() {
			if strings.HasPrefix(k, key) {
				lost[k] = d
				w.Store.Delete(k)
			}
		}
		l.gw = env.S3.Gateway(w.Store, fmt.Sprint(w.Name, "-lost", len(lost)))
		l.setup()
		if h, err := l.head(); err != nil || h.Size < good.Size || h.TS < good.TS || h.Root != good.Root {
			l.bad("rollback", "setup of a log without %s: head is now size %d at %d (%v), was size %d at %d", key, h.Size, h.TS, err, good.Size, good.TS)
			return
		}
		for k, d := range lost {
			w.Store.Set(k, d)
		}
		t.Eval("setup with objects missing/" + key)
	}
	// the log goes on
	l.gw = env.S3.Gateway(w.Store, w.Name+"-after")
	if ok, out := l.setup(); !ok {
		l.bad("fails", "%s", out)
		return
	}
	if in, err = l.boot(); err != nil {
		l.bad("start", "after failed setups: %v", err)
		return
	}
	l.submitUnder(in, rng, root, &led)
	in.Quiesce()
	l.judgeGrown(&led)
	t.Drain(c21cats, w)
}

// c21running: setup runs while the log is running.
func c21running(t *T, k int) {
	rng := t.Rand(fmt.Sprint("running", k))
	l := newC21log(t, k%4 == 3, WorldOpt{FlushMs: []int{3, 10, 40}[k%3]})
	defer l.close()
	w := l.w
	root := c21root{"RSA-2048", w.PKI.makeRoot("RSA-2048", nil)}
	must(os.WriteFile(l.file, bundleText(rng, [][]byte{root.ca.Raw}), 0644))
	if ok, out := l.setup(); !ok {
		l.bad("fails", "%s", out)
		return
	}
	in, err := l.boot()
	if err != nil {
		l.bad("start", "%v", err)
		return
	}
	l.gw = env.S3.Gateway(w.Store, w.Name+"-again")
	var led Ledger
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for c := 0; c < 4; c++ {
		crng := mrand.New(mrand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if sct, r := in.MustClient(t, w.PKI.Issue(root.ca, leafOpt{rng: crng}), &led, c21cats); sct == nil {
					l.bad("running", "submission during setup: %v", r)
					return
				}
			}
		}()
	}
	// the head is watched from outside: it never goes back
	wg.Add(1)
	go func() {
		defer wg.Done()
		var last Head
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Millisecond):
			}
			h, err := l.head()
			if err != nil || h.Size < last.Size || h.TS < last.TS {
				l.bad("rollback", "setup during operation: head of size %d at %d after size %d at %d (%v)", h.Size, h.TS, last.Size, last.TS, err)
				return
			}
			last = h
			t.Count("heads watched during setup", 1)
		}
	}()
	for i := 0; i < t.N(4, 10); i++ {
		time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
		if ok, out := l.setup(); !ok {
			l.bad("fails", "during operation: %s", out)
			break
		}
		t.Eval("setup during operation/" + l.kind)
	}
	close(stop)
	wg.Wait()
	in.Quiesce()
	l.judgeGrown(&led)
	t.Drain(c21cats, w)
}
