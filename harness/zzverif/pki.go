package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"slices"
	"sync"
	"sync/atomic"
	"time"
)

var (
	oidPoison  = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 3}
	oidCTEKU   = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 4}
	oidPadding = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 99999, 1}
	asn1Null   = []byte{5, 0}
)

// detKey derives an ECDSA key deterministically.
func detKey(curve elliptic.Curve, seed string) *ecdsa.PrivateKey {
	n := new(big.Int).Sub(curve.Params().N, big.NewInt(1))
	var buf []byte
	for i := 0; len(buf) < (curve.Params().BitSize+7)/8+8; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d", seed, i)))
		buf = append(buf, h[:]...)
	}
	d := new(big.Int).SetBytes(buf)
	d.Mod(d, n)
	d.Add(d, big.NewInt(1))
	return keyFromScalar(curve, d)
}

func keyFromScalar(curve elliptic.Curve, d *big.Int) *ecdsa.PrivateKey {
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = curve
	k.X, k.Y = curve.ScalarBaseMult(d.Bytes())
	return k
}

// CA is a certificate authority.
type CA struct {
	Cert *x509.Certificate
	Raw  []byte
	Key  crypto.Signer
	Up   *CA // issuer, nil for a root
	Pre  bool
}

// PKI is the universe of certificate authorities of a world.
type PKI struct {
	mu       sync.Mutex
	serial   int64
	salt     string
	Roots    []*CA
	Ints     []*CA // intermediates of various depth
	Pres     []*CA // precert signing certificates
	Deep     []*CA // intermediates with up to a dozen others above them
	Twins    []*CA // same subject, serial number and key identifier, different keys and parents
	TwinPre  []*CA // the same for precert signing certificates
	Anchors  []*CA // two roots of the same name, serial number and key identifier, and one that was renewed with its key, twice
	Odd      []*CA // self-signed certificates among the roots that are no ordinary authorities
	Lone     []*CA // self-signed certificates among the roots that may be logged themselves, each used once
	lone     int
	lastTwin *twinLeaf
	Foreign  *CA // root not trusted by the log
	ForInt   *CA
	leafKey  *ecdsa.PrivateKey
	start    time.Time
	limit    time.Time
}

func (p *PKI) nextSerial() *big.Int {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.serial++
	return big.NewInt(p.serial)
}

func subjKeyID(pub any) []byte {
	der, err := x509.MarshalPKIXPublicKey(pub)
	must(err)
	h := sha256.Sum256(der)
	return h[:20]
}

// twinLeaf describes a leaf to be issued again, with the same contents, by the twin of its issuer.
type twinLeaf struct {
	o  leafOpt
	ca int
	in []*CA
}

type caOpt struct {
	serial *big.Int
	ski    []byte
	mod    func(t *x509.Certificate)
	pre    bool
	rsaKey *rsa.PrivateKey
	key    crypto.Signer
	extra  []pkix.Extension
	cn     string
}

func (p *PKI) NewCA(up *CA, o caOpt) *CA {
	uniq := p.nextSerial()
	ser := uniq
	if o.serial != nil {
		ser = o.serial
	}
	key := o.key
	if key == nil {
		if o.rsaKey != nil {
			key = o.rsaKey
		} else {
			key = detKey(elliptic.P256(), fmt.Sprintf("%s/ca/%v", p.salt, uniq))
		}
	}
	if o.cn == "" {
		o.cn = fmt.Sprintf("CA %s %v", p.salt, ser)
	}
	t := &x509.Certificate{
		SerialNumber: ser, Subject: pkix.Name{CommonName: o.cn, Organization: []string{"verif"}},
		NotBefore: p.start.AddDate(-5, 0, 0), NotAfter: p.limit.AddDate(10, 0, 0),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign,
		SubjectKeyId: subjKeyID(key.Public()), ExtraExtensions: o.extra,
	}
	if o.ski != nil {
		t.SubjectKeyId = o.ski
	}
	if o.pre {
		t.UnknownExtKeyUsage = []asn1.ObjectIdentifier{oidCTEKU}
	}
	if o.mod != nil {
		o.mod(t)
	}
	parent, signer := t, key
	if up != nil {
		parent, signer = up.Cert, up.Key
	}
	raw, err := x509.CreateCertificate(rand.Reader, t, parent, key.Public(), signer)
	must(err)
	c := parseLoose(raw)
	if c.PublicKey == nil { // what issuing under it needs
		spki, err := x509.MarshalPKIXPublicKey(key.Public())
		must(err)
		subj, err := asn1.Marshal(t.Subject.ToRDNSequence())
		must(err)
		c.RawSubject, c.SubjectKeyId, c.PublicKey, c.RawSubjectPublicKeyInfo = subj, t.SubjectKeyId, key.Public(), spki
	}
	return &CA{Cert: c, Raw: raw, Key: key, Up: up, Pre: o.pre}
}

// parseLoose parses what it can of a certificate with an issuer the standard library does not like.
func parseLoose(raw []byte) *x509.Certificate {
	if c, err := x509.ParseCertificate(raw); err == nil {
		return c
	}
	var cert struct {
		TBS, Alg asn1.RawValue
		Sig      asn1.BitString
	}
	_, err := asn1.Unmarshal(raw, &cert)
	must(err)
	return &x509.Certificate{Raw: raw, RawTBSCertificate: cert.TBS.FullBytes}
}

func NewPKI(salt string, start, limit time.Time) *PKI {
	p := &PKI{salt: salt, start: start, limit: limit, serial: 1000}
	p.leafKey = detKey(elliptic.P256(), salt+"/leaf")
	// authorities have certificates of various lengths
	fat := func(n int) (r []pkix.Extension) {
		if n > 0 {
			r = []pkix.Extension{{Id: oidPadding, Value: bytes.Repeat([]byte{byte(n)}, n)}}
		}
		return r
	}
	for i := 0; i < 3; i++ {
		p.Roots = append(p.Roots, p.NewCA(nil, caOpt{extra: fat([]int{0, 3000, 700}[i])}))
	}
	for i := 0; i < 4; i++ {
		p.Ints = append(p.Ints, p.NewCA(p.Roots[i%3], caOpt{extra: fat([]int{0, 0, 1500, 9000}[i])}))
	}
	// deeper chains
	a := p.NewCA(p.Ints[0], caOpt{})
	b := p.NewCA(a, caOpt{})
	p.Ints = append(p.Ints, a, b)
	p.Pres = append(p.Pres,
		p.NewCA(p.Ints[0], caOpt{pre: true}),
		p.NewCA(p.Ints[1], caOpt{pre: true}),
		p.NewCA(p.Roots[2], caOpt{pre: true}),
		p.NewCA(b, caOpt{pre: true}))
	for up := b; len(p.Deep) < 9; {
		up = p.NewCA(up, caOpt{})
		p.Deep = append(p.Deep, up)
	}
	for i := 0; i < 3; i++ {
		h := sha256.Sum256([]byte(salt + "/twin"))
		up := p.Roots[i%3]
		if i == 2 {
			up = p.Ints[0]
		}
		c := p.NewCA(up, caOpt{serial: big.NewInt(7), ski: h[:20], cn: "Twin " + salt})
		p.Twins = append(p.Twins, c)
		p.TwinPre = append(p.TwinPre, p.NewCA(c, caOpt{pre: true, serial: big.NewInt(8), ski: h[10:30], cn: "Twin signer " + salt}))
	}
	for i := 0; i < 4; i++ {
		p.Lone = append(p.Lone, p.NewCA(nil, caOpt{mod: func(t *x509.Certificate) {
			t.NotBefore, t.NotAfter = start.AddDate(-1, 0, 0), start.Add(limit.Sub(start)/3).Truncate(time.Second)
			t.IsCA = i%2 == 0
		}}))
	}
	ah := sha256.Sum256([]byte(salt + "/anchor"))
	for i := 0; i < 2; i++ {
		p.Anchors = append(p.Anchors, p.NewCA(nil, caOpt{serial: big.NewInt(9), ski: ah[:20], cn: "Anchor " + salt}))
	}
	ak := detKey(elliptic.P256(), salt+"/renewed")
	for i := 0; i < 3; i++ {
		p.Anchors = append(p.Anchors, p.NewCA(nil, caOpt{key: ak, cn: "Renewed " + salt}))
	}
	p.Foreign = p.NewCA(nil, caOpt{})
	p.ForInt = p.NewCA(p.Foreign, caOpt{})
	return p
}

// AddOdd adds self-signed certificates that nobody should configure as roots.
func (p *PKI) AddOdd() {
	in := func(t *x509.Certificate) {
		t.NotBefore, t.NotAfter = p.start.AddDate(-1, 0, 0), p.start.Add(p.limit.Sub(p.start)/3).Truncate(time.Second)
	}
	poison := pkix.Extension{Id: oidPoison, Critical: true, Value: asn1Null}
	rk, err := rsa.GenerateKey(rand.Reader, 2048)
	must(err)
	_, ek, err := ed25519.GenerateKey(rand.Reader)
	must(err)
	p.Odd = append(p.Odd,
		p.NewCA(nil, caOpt{pre: true}),
		p.NewCA(nil, caOpt{pre: true, mod: in}),
		p.NewCA(nil, caOpt{mod: in, extra: []pkix.Extension{poison}}),
		p.NewCA(nil, caOpt{pre: true, mod: in, extra: []pkix.Extension{poison}}),
		p.NewCA(nil, caOpt{mod: func(t *x509.Certificate) { in(t); t.IsCA = false }, extra: []pkix.Extension{poison}}),
		p.NewCA(nil, caOpt{mod: in, extra: []pkix.Extension{{Id: oidPoison, Value: asn1Null}}}),
		p.NewCA(nil, caOpt{mod: in, extra: []pkix.Extension{{Id: oidPoison, Critical: true, Value: []byte{4, 1, 0}}}}),
		p.NewCA(nil, caOpt{rsaKey: rk, mod: in}),
		p.NewCA(nil, caOpt{key: ek, mod: in}),
		p.NewCA(nil, caOpt{key: detKey(elliptic.P521(), p.salt+"/odd"), mod: in}),
		p.NewCA(nil, caOpt{mod: func(t *x509.Certificate) { in(t); t.Subject = pkix.Name{} }}))
}

// oddChain makes a chain around one of these.
func (p *PKI) oddChain(rng *mrand.Rand) (pre bool, chain [][]byte) {
	var ca *CA
	if len(p.Odd) > 0 {
		ca = p.Odd[rng.Intn(len(p.Odd))]
	}
	if ca == nil || rng.Intn(4) == 0 {
		ca = p.Lone[rng.Intn(len(p.Lone))]
	}
	pre = rng.Intn(3) > 0
	switch rng.Intn(4) {
	case 0:
		chain = [][]byte{ca.Raw}
	case 1:
		chain = [][]byte{ca.Raw, ca.Raw}
	case 2:
		chain = p.Issue(ca, leafOpt{pre: pre, rng: rng, omitRoot: rng.Intn(2) == 0}).Chain
	case 3:
		sub := p.NewCA(ca, caOpt{pre: rng.Intn(2) == 0})
		chain = p.Issue(sub, leafOpt{pre: pre, rng: rng, omitRoot: rng.Intn(2) == 0}).Chain
	}
	return pre, chain
}

// RootsJSON is the get-roots object.
func (p *PKI) RootsJSON() []byte {
	var res struct {
		Certificates [][]byte `json:"certificates"`
	}
	for _, r := range slices.Concat(p.Roots, p.Lone, p.Anchors, p.Odd) {
		res.Certificates = append(res.Certificates, r.Raw)
	}
	b, err := json.Marshal(res)
	must(err)
	return b
}

// Sub is a submission together with everything an oracle needs to judge the answer.
type Sub struct {
	ID        int
	Kind      string
	Pre       bool
	Chain     [][]byte // as sent
	Full      [][]byte // leaf .. root
	TBS       []byte   // precert: TBS of the certificate without poison, signed by the final issuer
	IssuerKH  [32]byte // precert: hash of the final issuer's SPKI
	FP        [32]byte
	AltTBS    []byte
	finalRaw  []byte // precert: the certificate issued for it
	final     *CA
	PreIssuer bool // signed by a dedicated precertificate signing certificate
}

func (s *Sub) plainBody() []byte {
	b, err := json.Marshal(map[string]any{"chain": s.Chain})
	must(err)
	return b
}

func (s *Sub) Body() []byte {
	b, err := s.plainBody(), error(nil)
	if len(b) > 60000 {
		return b
	}
	switch bodySeq.Add(1) % 8 { // the same value, written as other JSON libraries do
	case 1:
		b, err = json.MarshalIndent(map[string]any{"chain": s.Chain}, "\r\n", "\t")
		must(err)
		b = append(b, '\n')
	case 2:
		b = bytes.ReplaceAll(b, []byte("/"), []byte(`\/`))
	case 3:
		b = bytes.ReplaceAll(bytes.ReplaceAll(b, []byte("+"), []byte(`\u002b`)), []byte("="), []byte(`\u003D`))
	}
	return b
}

var bodySeq atomic.Uint64

func (s *Sub) Path() string {
	if s.Pre {
		return "/ct/v1/add-pre-chain"
	}
	return "/ct/v1/add-chain"
}

type leafOpt struct {
	pre       bool
	pad       int
	notAfter  time.Time
	omitRoot  bool
	poison    *pkix.Extension // overrides the poison extension
	names     int
	serialPad bool
	rng       *mrand.Rand
	alt       *CA // also compute the TBS for this final issuer
	mod       func(t *x509.Certificate)
	key       crypto.PublicKey
	serial    *big.Int
}

func caPath(ca *CA) []*CA {
	var r []*CA
	for ; ca != nil; ca = ca.Up {
		r = append(r, ca)
	}
	return r
}

// Issue makes a leaf (pre)certificate under ca. If ca is a precert signing certificate, the final issuer is ca.Up.
func (p *PKI) Issue(ca *CA, o leafOpt) *Sub {
	ser := o.serial
	if ser == nil {
		ser = p.nextSerial()
	}
	na := o.notAfter
	if na.IsZero() {
		d := p.limit.Sub(p.start)
		f := 0.5
		if o.rng != nil {
			f = o.rng.Float64()
		}
		na = p.start.Add(time.Duration(float64(d) * f)).Truncate(time.Second)
	}
	mk := func(issuer *CA, poison bool) *x509.Certificate {
		t := &x509.Certificate{
			SerialNumber: ser, Subject: pkix.Name{CommonName: fmt.Sprintf("leaf-%v.example", ser)},
			NotBefore: na.AddDate(-1, 0, 0), NotAfter: na,
			KeyUsage: x509.KeyUsageDigitalSignature, DNSNames: []string{fmt.Sprintf("leaf-%v.example", ser)},
			ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		}
		for i := 0; i < o.names; i++ {
			t.DNSNames = append(t.DNSNames, fmt.Sprintf("n%d.leaf-%v.example", i, ser))
		}
		pad := []pkix.Extension{}
		if o.pad > 0 {
			pad = append(pad, pkix.Extension{Id: oidPadding, Value: bytes.Repeat([]byte{byte(ser.Int64())}, o.pad)})
		}
		var po []pkix.Extension
		if poison {
			po = append(po, pkix.Extension{Id: oidPoison, Critical: true, Value: asn1Null})
		}
		if o.poison != nil {
			po = []pkix.Extension{*o.poison}
		}
		if ser.Int64()%2 == 0 { // vary the position of the poison extension
			t.ExtraExtensions = append(po, pad...)
		} else {
			t.ExtraExtensions = append(pad, po...)
		}
		if o.mod != nil {
			o.mod(t)
		}
		var pub crypto.PublicKey = p.leafKey.Public()
		if o.key != nil {
			pub = o.key
		}
		raw, err := x509.CreateCertificate(rand.Reader, t, issuer.Cert, pub, issuer.Key)
		must(err)
		return parseLoose(raw)
	}
	c := mk(ca, o.pre)
	s := &Sub{ID: int(ser.Int64()), Pre: o.pre, FP: sha256.Sum256(c.Raw)}
	s.Full = [][]byte{c.Raw}
	for _, x := range caPath(ca) {
		s.Full = append(s.Full, x.Raw)
	}
	s.Chain = s.Full
	if o.omitRoot {
		s.Chain = s.Full[:len(s.Full)-1]
	}
	if o.pre {
		final := ca
		if ca.Pre && ca.Up != nil {
			final = ca.Up
			s.PreIssuer = true
		}
		fc := mk(final, false)
		s.TBS, s.finalRaw, s.final = fc.RawTBSCertificate, fc.Raw, final
		s.IssuerKH = sha256.Sum256(final.Cert.RawSubjectPublicKeyInfo)
		if o.alt != nil {
			s.AltTBS = mk(o.alt, false).RawTBSCertificate
		}
	}
	s.Kind = fmt.Sprintf("pre=%v,depth=%d,preissuer=%v,omitroot=%v,big=%v", o.pre, len(s.Full), ca.Pre, o.omitRoot, o.pad > 1000 || o.names > 50)
	return s
}

// finalOf is the submission of the certificate issued for precertificate s.
func (p *PKI) finalOf(s *Sub) *Sub {
	t := &Sub{ID: s.ID, Kind: s.Kind + ",final", FP: sha256.Sum256(s.finalRaw), Full: [][]byte{s.finalRaw}}
	for _, x := range caPath(s.final) {
		t.Full = append(t.Full, x.Raw)
	}
	t.Chain = t.Full
	return t
}

// Twin issues leaves in pairs (or triples) that agree in everything but the signature:
// the same to-be-signed part, signed by different keys of authorities with the same name, serial number and key identifier.
func (p *PKI) Twin(rng *mrand.Rand) *Sub {
	p.mu.Lock()
	tl := p.lastTwin
	p.lastTwin = nil
	p.mu.Unlock()
	if tl == nil {
		d := float64(p.limit.Sub(p.start))
		tl = &twinLeaf{in: p.Twins, o: leafOpt{serial: p.nextSerial(), omitRoot: rng.Intn(2) == 0, pre: rng.Intn(2) == 0,
			notAfter: p.start.Add(time.Duration(d * rng.Float64())).Truncate(time.Second)}}
		switch rng.Intn(3) {
		case 0:
			if tl.o.pre {
				tl.in = p.TwinPre
			}
		case 1:
			tl.in = p.Anchors[:2]
		}
	}
	s := p.Issue(tl.in[tl.ca], tl.o)
	s.Kind += ",twin"
	if tl.ca++; tl.ca < len(tl.in) && rng.Intn(5) > 0 {
		p.mu.Lock()
		p.lastTwin = tl
		p.mu.Unlock()
	}
	return s
}

// Random makes a random acceptable submission.
func (p *PKI) Random(rng *mrand.Rand) *Sub {
	if rng.Intn(16) == 0 {
		p.mu.Lock()
		k := p.lone
		p.lone++
		p.mu.Unlock()
		if k < len(p.Lone) { // a root itself: nothing above it
			c := p.Lone[k]
			return &Sub{ID: int(c.Cert.SerialNumber.Int64()), Kind: "root itself", FP: sha256.Sum256(c.Raw), Full: [][]byte{c.Raw}, Chain: [][]byte{c.Raw}}
		}
	}
	if rng.Intn(6) == 0 {
		return p.Twin(rng)
	}
	o := leafOpt{omitRoot: rng.Intn(2) == 0, rng: rng}
	switch rng.Intn(8) {
	case 0:
		o.pad = rng.Intn(20000)
		if rng.Intn(6) == 0 {
			o.pad = 65536 - 900 + rng.Intn(1800) // lengths of two and three bytes
		}
	case 1:
		o.names = rng.Intn(200)
	case 2:
		o.pad = 100 + rng.Intn(160) // DER length boundaries
	}
	var ca *CA
	switch rng.Intn(8) {
	case 7:
		// an authority that has several certificates for its one key: the root says which is meant
		ca = p.Anchors[2+rng.Intn(3)]
		o.pre, o.omitRoot = rng.Intn(2) == 0, false
	case 6:
		ca = p.Deep[rng.Intn(len(p.Deep))]
		o.pre = rng.Intn(2) == 0
	case 0:
		ca = p.Roots[rng.Intn(len(p.Roots))]
		o.pre = rng.Intn(2) == 0
		o.omitRoot = false
	case 1, 2:
		ca = p.Ints[rng.Intn(len(p.Ints))]
	case 3, 4:
		ca = p.Ints[rng.Intn(len(p.Ints))]
		o.pre = true
	case 5:
		ca = p.Pres[rng.Intn(len(p.Pres))]
		o.pre = true
	}
	return p.Issue(ca, o)
}

// Small makes a cheap random submission without size variation.
func (p *PKI) Small(rng *mrand.Rand) *Sub {
	o := leafOpt{omitRoot: rng.Intn(2) == 0, rng: rng, pre: rng.Intn(2) == 0}
	return p.Issue(p.Ints[rng.Intn(len(p.Ints))], o)
}

// WithIssuerOf returns a copy of s that is sent with the root appended or removed.
func (s *Sub) ToggleRoot() *Sub {
	t := *s
	if len(s.Chain) == len(s.Full) && len(s.Full) > 2 {
		t.Chain = s.Full[:len(s.Full)-1]
	} else {
		t.Chain = s.Full
	}
	return &t
}

// issueCrossPre issues one precertificate under a pre-issuer key certified twice (pa, pb) and returns both submissions.
func (p *PKI) issueCrossPre(pa, pb *CA, rng *mrand.Rand) (*Sub, *Sub) {
	s1 := p.Issue(pa, leafOpt{pre: true, rng: rng, alt: pb.Up})
	kh := sha256.Sum256(pb.Up.Cert.RawSubjectPublicKeyInfo)
	s2 := p.rechain(s1, pb, s1.AltTBS, &kh)
	return s1, s2
}

// cross adds a second certification of an existing CA key by another issuer.
func (p *PKI) cross(ca *CA, up *CA) *CA {
	return p.NewCA(up, caOpt{key: ca.Key, cn: ca.Cert.Subject.CommonName, pre: ca.Pre})
}

// renamed is another authority of ca's issuer with the same key but another name.
func (p *PKI) renamed(ca *CA) *CA {
	return p.NewCA(ca.Up, caOpt{key: ca.Key, cn: ca.Cert.Subject.CommonName + " renamed", ski: []byte(p.salt + "renamed")})
}

// rechain returns a submission of the same leaf under another chain. finalIssuer changes for pre-issuers.
func (p *PKI) rechain(s *Sub, ca *CA, tbs []byte, ikh *[32]byte) *Sub {
	t := *s
	t.Full = [][]byte{s.Full[0]}
	for _, x := range caPath(ca) {
		t.Full = append(t.Full, x.Raw)
	}
	t.Chain = t.Full
	if tbs != nil {
		t.TBS = tbs
	}
	if ikh != nil {
		t.IssuerKH = *ikh
	}
	t.Kind += ",rechained"
	return &t
}
