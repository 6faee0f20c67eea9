package main

import (
	"bytes"
	"crypto"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"slices"
	"strings"
	"sync"
	"time"

	"itko.dev/internal/ctsubmit"
)

func init() {
	checks["C10"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one submission whose admissibility is known by construction, its answer compared with it; after each round the whole storage is compared with what the accepted submissions justify; " +
			"distinct = (chain shape or defect, certificate/precertificate, endpoint, window) combinations",
		Run: runC10,
	}
}

// probe is a submission with known admissibility.
type probe struct {
	s      *Sub
	path   string
	body   []byte // if not s.Body()
	accept bool
	class  string
}

// as returns a copy of ca that signs with another key but looks the same.
func (ca *CA) forged(seed string) *CA {
	k := detKey(elliptic.P256(), "forged/"+seed)
	c := *ca.Cert
	c.PublicKey = nil
	return &CA{Cert: &c, Raw: ca.Raw, Key: k, Up: ca.Up, Pre: ca.Pre}
}

var rsaKeys []*rsa.PrivateKey
var rsaOnce sync.Once

func rsaKey(i int) *rsa.PrivateKey {
	rsaOnce.Do(func() {
		for k := 0; k < 3; k++ {
			x, err := rsa.GenerateKey(rand.Reader, 2048)
			must(err)
			rsaKeys = append(rsaKeys, x)
		}
	})
	return rsaKeys[i%len(rsaKeys)]
}

var rsa1024 = sync.OnceValue(func() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 1024)
	must(err)
	return k
})

// c10PKI adds authorities of unusual kinds.
type c10PKI struct {
	*PKI
	rsaRoot, rsaInt, p384Int, p521Int, expired, pathlen *CA
	deep                                                *CA
	special                                             []*CA
}

func newC10PKI(p *PKI) *c10PKI {
	q := &c10PKI{PKI: p}
	q.rsaRoot = p.NewCA(nil, caOpt{rsaKey: rsaKey(0)})
	p.Roots = append(p.Roots, q.rsaRoot)
	q.rsaInt = p.NewCA(q.rsaRoot, caOpt{rsaKey: rsaKey(1)})
	q.p384Int = p.NewCA(p.Roots[0], caOpt{key: detKey(elliptic.P384(), p.salt+"/384")})
	q.p521Int = p.NewCA(q.p384Int, caOpt{key: detKey(elliptic.P521(), p.salt+"/521")})
	q.deep = p.Ints[0]
	for i := 0; i < 5; i++ {
		q.deep = p.NewCA(q.deep, caOpt{})
	}
	mk := func(up *CA, seed string, f func(t *x509.Certificate)) *CA {
		key := detKey(elliptic.P256(), p.salt+seed)
		t := &x509.Certificate{SerialNumber: p.nextSerial(), Subject: pkix.Name{CommonName: "special " + seed + p.salt},
			NotBefore: p.start.AddDate(-5, 0, 0), NotAfter: p.limit.AddDate(10, 0, 0),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign, SubjectKeyId: subjKeyID(key.Public())}
		f(t)
		raw, err := x509.CreateCertificate(rand.Reader, t, up.Cert, key.Public(), up.Key)
		must(err)
		c, err := x509.ParseCertificate(raw)
		must(err)
		return &CA{Cert: c, Raw: raw, Key: key, Up: up}
	}
	q.expired = mk(p.Roots[1], "expired", func(t *x509.Certificate) {
		t.NotBefore, t.NotAfter = time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2002, 1, 1, 0, 0, 0, 0, time.UTC)
	})
	zero := mk(p.Roots[1], "pathlen0", func(t *x509.Certificate) { t.MaxPathLenZero = true })
	q.pathlen = mk(zero, "below pathlen0", func(t *x509.Certificate) {})
	// restrictions that are for relying parties, not for logs, to apply
	q.special = append(q.special,
		mk(p.Roots[0], "name constraints", func(t *x509.Certificate) {
			t.PermittedDNSDomainsCritical, t.PermittedDNSDomains, t.ExcludedDNSDomains = true, []string{"other.test"}, []string{"example"}
		}),
		mk(p.Roots[0], "future", func(t *x509.Certificate) {
			t.NotBefore, t.NotAfter = time.Date(2070, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2080, 1, 1, 0, 0, 0, 0, time.UTC)
		}),
		mk(p.Roots[1], "EKU", func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageCodeSigning} }),
		mk(p.Roots[2], "critical extension", func(t *x509.Certificate) {
			t.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 99999, 9}, Critical: true, Value: []byte{5, 0}}}
		}),
		mk(q.rsaRoot, "PSS", func(t *x509.Certificate) { t.SignatureAlgorithm = x509.SHA384WithRSAPSS }),
		mk(q.p384Int, "SHA-512", func(t *x509.Certificate) { t.SignatureAlgorithm = x509.ECDSAWithSHA512 }),
	)
	_, ed, err := ed25519.GenerateKey(rand.Reader)
	must(err)
	q.special = append(q.special, p.NewCA(p.Roots[0], caOpt{key: ed}))
	for _, x := range []crypto.Signer{detKey(elliptic.P224(), p.salt+"/224")} {
		q.special = append(q.special, p.NewCA(p.Roots[1], caOpt{key: x}))
	}
	return q
}

func (q *c10PKI) cas() []*CA {
	r := append([]*CA{}, q.Ints...)
	r = append(r, q.Pres...)
	r = append(r, q.special...)
	r = append(r, q.Twins...)
	r = append(r, q.Anchors[:2]...)
	r = append(r, q.TwinPre...)
	r = append(r, q.Deep[2], q.Deep[5], q.Deep[7], q.Deep[8])
	return append(r, q.rsaInt, q.p384Int, q.p521Int, q.expired, q.pathlen, q.deep, q.Roots[0], q.rsaRoot)
}

// leafOddity is something that makes a leaf unusual but leaves it admissible.
func leafOddity(rng *mrand.Rand) (func(t *x509.Certificate), crypto.PublicKey, string) {
	switch rng.Intn(15) {
	case 12:
		pub, _, err := ed25519.GenerateKey(rand.Reader)
		must(err)
		return nil, pub, "Ed25519 key"
	case 13:
		return nil, detKey(elliptic.P224(), fmt.Sprint("leaf", rng.Int63())).Public(), "P-224 key"
	case 14:
		return nil, rsa1024().Public(), "RSA key of 1024 bits"
	case 0:
		return func(t *x509.Certificate) { t.ExtKeyUsage = nil }, nil, "no EKU"
	case 1:
		return func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} }, nil, "EKU client"
	case 2:
		return func(t *x509.Certificate) {
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageCodeSigning, x509.ExtKeyUsageEmailProtection}
		}, nil, "EKU code signing"
	case 3:
		return func(t *x509.Certificate) {
			t.ExtKeyUsage, t.UnknownExtKeyUsage = nil, []asn1.ObjectIdentifier{{1, 3, 6, 1, 4, 1, 99999, 7}}
		}, nil, "EKU unknown"
	case 4:
		return func(t *x509.Certificate) {
			t.IsCA, t.BasicConstraintsValid, t.KeyUsage, t.ExtKeyUsage = true, true, x509.KeyUsageCertSign, nil
		}, nil, "a CA"
	case 5:
		return func(t *x509.Certificate) {
			t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 99999, 8}, Critical: true, Value: []byte{5, 0}})
		}, nil, "unknown critical extension"
	case 6:
		return func(t *x509.Certificate) { t.Subject, t.DNSNames = pkix.Name{}, nil }, nil, "no names"
	case 7:
		return func(t *x509.Certificate) { t.KeyUsage, t.ExtKeyUsage = 0, nil }, nil, "no key usage"
	case 8:
		return func(t *x509.Certificate) { t.NotBefore = t.NotAfter }, nil, "valid for a moment"
	case 9:
		return func(t *x509.Certificate) { t.NotBefore = t.NotAfter.AddDate(-20, 0, 0) }, nil, "valid for 20 years"
	case 10:
		return nil, rsaKey(2).Public(), "RSA key"
	}
	return nil, detKey(elliptic.P521(), fmt.Sprint("leaf", rng.Int63())).Public(), "P-521 key"
}

func (q *c10PKI) probe(rng *mrand.Rand) probe {
	cas := q.cas()
	ca := cas[rng.Intn(len(cas))]
	pre := ca.Pre || rng.Intn(2) == 0
	o := leafOpt{pre: pre, rng: rng, omitRoot: rng.Intn(2) == 0}
	day := 24 * time.Hour
	issue := func() *Sub { return q.Issue(ca, o) }
	ok := func(s *Sub, class string) probe { return probe{s: s, path: s.Path(), accept: true, class: class} }
	no := func(s *Sub, class string) probe { return probe{s: s, path: s.Path(), class: class} }
	chain := func(s *Sub, c ...[]byte) *Sub { t := *s; t.Chain = c; return &t }
	flip := func(b []byte, from int) []byte {
		c := append([]byte{}, b...)
		c[from+rng.Intn(len(c)-from)] ^= 1 << rng.Intn(8)
		return c
	}
	switch k := rng.Intn(42); k {
	case 0, 1, 2, 3, 4:
		return ok(issue(), "valid")
	case 5:
		o.notAfter = q.start
		return ok(issue(), "NotAfter = start")
	case 6:
		o.notAfter = q.start.Add(-time.Second)
		return no(issue(), "NotAfter = start-1s")
	case 7:
		o.notAfter = q.limit
		return no(issue(), "NotAfter = limit")
	case 8:
		o.notAfter = q.limit.Add(-time.Second)
		return ok(issue(), "NotAfter = limit-1s")
	case 9:
		o.notAfter = q.limit.Add([]time.Duration{time.Second, time.Hour, day, 365 * day, 20 * 365 * day}[rng.Intn(5)])
		return no(issue(), "NotAfter after the window")
	case 10:
		o.notAfter = q.start.Add(-[]time.Duration{time.Second, time.Hour, day, 365 * day}[rng.Intn(4)])
		return no(issue(), "NotAfter before the window")
	case 11:
		ca = []*CA{q.Foreign, q.ForInt}[rng.Intn(2)]
		return no(issue(), "unknown root")
	case 12:
		ca = q.ForInt
		s := issue()
		return no(chain(s, append(append([][]byte{}, s.Full[:len(s.Full)-1]...), q.Roots[rng.Intn(len(q.Roots))].Raw)...), "unknown root replaced by a known one")
	case 13:
		ca = q.ForInt
		s := issue()
		return no(chain(s, append(append([][]byte{}, s.Full...), q.Roots[0].Raw)...), "unknown root followed by a known one")
	case 14:
		ca = []*CA{q.deep, q.deep, q.p521Int, q.Ints[5]}[rng.Intn(4)]
		s := issue()
		c := append([][]byte{}, s.Full...)
		up := c[1:]
		if rng.Intn(2) == 0 && len(up) > 2 { // without the root
			up = up[:len(up)-1]
			c = c[:1+len(up)]
		}
		kind := "neighbours swapped"
		switch rng.Intn(4) {
		case 0:
			i := rng.Intn(len(up) - 1)
			up[i], up[i+1] = up[i+1], up[i]
		case 1:
			slices.Reverse(up)
			kind = "topmost first"
		case 2:
			kind = "any order"
			was := slices.Clone(up)
			for slices.EqualFunc(was, up, bytes.Equal) {
				rng.Shuffle(len(up), func(i, j int) { up[i], up[j] = up[j], up[i] })
			}
		case 3:
			kind = "leaf not first"
			i := 1 + rng.Intn(len(up))
			c[0], c[i] = c[i], c[0]
		}
		return no(chain(s, c...), "out of order: "+kind)
	case 15:
		ca = []*CA{q.deep, q.p521Int, q.Ints[5]}[rng.Intn(3)]
		s := issue()
		i := 1 + rng.Intn(len(s.Full)-2)
		c := append(append([][]byte{}, s.Full[:i]...), s.Full[i+1:]...)
		return no(chain(s, c...), "intermediate missing")
	case 16:
		s := issue()
		i := rng.Intn(len(s.Full))
		c := append(append(append([][]byte{}, s.Full[:i+1]...), s.Full[i]), s.Full[i+1:]...)
		return no(chain(s, c...), "certificate twice")
	case 17:
		s := issue()
		x := []*CA{q.Ints[2], q.Foreign, q.Roots[1], q.Pres[2]}[rng.Intn(4)].Raw
		for _, f := range s.Full {
			if bytes.Equal(f, x) {
				x = q.ForInt.Raw
			}
		}
		i := 1 + rng.Intn(len(s.Full))
		c := append(append(append([][]byte{}, s.Full[:i]...), x), s.Full[i:]...)
		return no(chain(s, c...), "unrelated certificate inserted")
	case 18:
		s := issue()
		c := append([][]byte{}, s.Full...)
		for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
			c[i], c[j] = c[j], c[i]
		}
		return no(chain(s, c...), "reversed")
	case 19:
		ca = ca.forged(fmt.Sprint(rng.Int63()))
		if ca.Up == nil && !bytes.Equal(ca.Cert.RawIssuer, ca.Cert.RawSubject) {
			panic("harness: forged")
		}
		return no(issue(), "leaf signed by somebody else with the issuer's name")
	case 20:
		// an intermediate signed by somebody else with the root's name
		f := q.Roots[rng.Intn(3)].forged(fmt.Sprint(rng.Int63()))
		ca = q.NewCA(f, caOpt{})
		return no(issue(), "intermediate signed by somebody else with the root's name")
	case 21:
		s := issue()
		c := append([][]byte{}, s.Full...)
		c[0] = flip(c[0], len(c[0])-20)
		return no(chain(s, c...), "leaf signature altered")
	case 22:
		s := issue()
		c := append([][]byte{}, s.Full...)
		i := bytes.Index(c[0], []byte("leaf-"))
		c[0] = append([]byte{}, c[0]...)
		c[0][i+1] = 'E'
		return no(chain(s, c...), "leaf name altered")
	case 23:
		ca = []*CA{q.deep, q.Ints[5], q.p521Int}[rng.Intn(3)]
		s := issue()
		c := append([][]byte{}, s.Full...)
		i := 1 + rng.Intn(len(c)-2)
		c[i] = flip(c[i], len(c[i])-20)
		return no(chain(s, c...), "intermediate signature altered")
	case 24:
		s := issue()
		p := no(s, "wrong endpoint")
		p.path = map[bool]string{true: "/ct/v1/add-chain", false: "/ct/v1/add-pre-chain"}[s.Pre]
		return p
	case 25, 26:
		// a leaf with a malformed poison extension is neither a certificate nor a precertificate
		e := pkix.Extension{Id: oidPoison, Critical: true, Value: asn1Null}
		kind := ""
		switch rng.Intn(4) {
		case 0:
			e.Critical, kind = false, "not critical"
		case 1:
			e.Value, kind = []byte{4, 0}, "wrong value"
		case 2:
			e.Value, kind = nil, "empty"
		case 3:
			e.Value, kind = []byte{5, 0, 0}, "trailing byte"
		}
		if ca.Pre {
			ca = q.Ints[0]
		}
		o.poison, o.pre = &e, false
		s := issue()
		p := no(s, "poison extension "+kind)
		p.path = []string{"/ct/v1/add-chain", "/ct/v1/add-pre-chain"}[rng.Intn(2)]
		return p
	case 27:
		s := issue()
		c := append([][]byte{}, s.Full...)
		i := rng.Intn(len(c))
		switch rng.Intn(4) {
		case 0:
			c[i] = nil
		case 1:
			c[i] = c[i][:rng.Intn(len(c[i]))]
		case 2:
			c[i] = []byte("not a certificate")
		case 3:
			c[i] = append(append([]byte{}, c[i]...), 0)
		}
		return no(chain(s, c...), "not a certificate in the chain")
	case 28:
		s := issue()
		p := no(s, "")
		b := s.plainBody()
		switch rng.Intn(6) {
		case 0:
			p.body, p.class = []byte(`{"chain":[]}`), "no certificates"
		case 1:
			p.body, p.class = []byte(`{}`), "no chain"
		case 2:
			p.body, p.class = b[:rng.Intn(len(b))], "truncated body"
		case 3:
			p.body, p.class = []byte(`{"chain":null}`), "null chain"
		case 4:
			p.body, p.class = []byte{}, "empty body"
		case 5:
			p.body, p.class = bytes.Replace(b, []byte(`"chain":["`), []byte(`"chain":["!`), 1), "bad base64"
		}
		return p
	case 29:
		// a self-signed leaf inside the window
		key := detKey(elliptic.P256(), fmt.Sprint("self", rng.Int63()))
		ser := q.nextSerial()
		t := &x509.Certificate{SerialNumber: ser, Subject: pkix.Name{CommonName: fmt.Sprintf("self-%v", ser)}, NotBefore: q.start, NotAfter: q.start.Add(day * 30), IsCA: rng.Intn(2) == 0, BasicConstraintsValid: true}
		raw, err := x509.CreateCertificate(rand.Reader, t, t, key.Public(), key)
		must(err)
		s := &Sub{ID: int(ser.Int64()), Chain: [][]byte{raw}, Full: [][]byte{raw}, FP: sha256.Sum256(raw), Kind: "self-signed"}
		if rng.Intn(2) == 0 {
			s.Chain = append(s.Chain, q.Roots[0].Raw)
		}
		return no(s, "self-signed")
	case 30:
		// only the leaf, its issuer being an intermediate
		ca = q.Ints[rng.Intn(len(q.Ints))]
		s := issue()
		return no(chain(s, s.Full[0]), "issuer left out")
	case 31:
		// issued directly by a root, which is left out
		ca = q.Roots[rng.Intn(3)]
		o.omitRoot = true
		return ok(issue(), "only the leaf, issued by a root")
	case 33, 34:
		// what a leaf is for, and what else it says, is none of the log's business
		class := ""
		o.mod, o.key, class = leafOddity(rng)
		return ok(issue(), "valid, "+class)
	case 35:
		// large, but within the limit on bodies
		o.omitRoot = true
		ca = []*CA{q.Ints[0], q.Ints[5], q.p521Int, q.rsaInt}[rng.Intn(4)]
		o.pre = rng.Intn(2) == 0
		o.pad = 1 + rng.Intn(1000)
		s := issue()
		max := 128 * 1024 * 3 / 4
		if o.pad += max - len(s.plainBody())*3/4 - 600 - rng.Intn(2)*rng.Intn(40000); o.pad > 0 {
			s = issue()
		}
		if len(s.plainBody()) > 128*1024 {
			return ok(q.Issue(q.Ints[0], leafOpt{rng: rng}), "valid")
		}
		return ok(s, "body close to the limit")
	case 36:
		// other ways to write the same JSON
		s := issue()
		p := ok(s, "valid")
		b := s.plainBody()
		switch rng.Intn(4) {
		case 0:
			p.body, p.class = append([]byte(" \n\t"), append(b, "\r\n "...)...), "white space around"
		case 1:
			p.body, p.class = append([]byte(`{"comment":{"a":[1,2,null]},`), b[1:]...), "another member"
		case 2:
			p.body, p.class = bytes.ReplaceAll(b, []byte("/"), []byte(`\/`)), "escaped slashes"
		case 3:
			p.body, p.class = bytes.ReplaceAll(b, []byte(`","`), []byte("\",\n\t\"")), "indented"
		}
		return p
	case 37:
		// a root itself
		if rng.Intn(2) == 0 {
			c := q.Lone[rng.Intn(len(q.Lone))]
			return no(chain(&Sub{Kind: "root", Full: [][]byte{c.Raw}}, c.Raw, q.Roots[rng.Intn(3)].Raw), "a root followed by another one")
		}
		if q.lone++; q.lone > len(q.Lone) {
			c := q.Roots[rng.Intn(3)]
			return no(&Sub{Kind: "root", Full: [][]byte{c.Raw}, Chain: [][]byte{c.Raw}}, "a root itself, NotAfter after the window")
		}
		c := q.Lone[q.lone-1]
		return ok(&Sub{Kind: "root itself", FP: sha256.Sum256(c.Raw), Full: [][]byte{c.Raw}, Chain: [][]byte{c.Raw}}, "a root itself")
	case 38:
		// the issuer has the same name and key identifier as the one that signed
		k := rng.Intn(3)
		in := q.Twins
		switch rng.Intn(4) {
		case 0:
			in, o.pre = q.TwinPre, true
		case 1:
			in = q.Anchors[:2]
		}
		k %= len(in)
		ca = in[k]
		s := issue()
		c := append([][]byte{s.Full[0]}, q.Issue(in[(k+1+rng.Intn(len(in)-1))%len(in)], o).Full[1:]...)
		return no(chain(s, c...), "issued by another key with the issuer's name and key identifier")
	case 41:
		// a root with several certificates
		ca = q.Anchors[2+rng.Intn(3)]
		if rng.Intn(2) == 0 {
			ca = q.NewCA(ca, caOpt{})
		}
		o.omitRoot = false
		return ok(issue(), "under one of the certificates of a root that was renewed")
	case 32:
		// an unknown root certified by a known one
		c := q.cross(q.Foreign, q.Roots[rng.Intn(3)])
		ca = q.ForInt
		s := issue()
		s.Full = append(append([][]byte{}, s.Full[:2]...), c.Raw, c.Up.Raw)
		s.Chain = s.Full
		if rng.Intn(2) == 0 {
			s.Chain = s.Full[:3]
		}
		return ok(s, "unknown root cross-certified by a known one")
	default:
		// the leaf belongs to another issuer of the same chain length
		a := q.Issue(q.Ints[0], o)
		b := q.Issue(q.Ints[1], o)
		return no(chain(a, append([][]byte{a.Full[0]}, b.Full[1:]...)...), "chain of another certificate")
	}
}

func runC10(t *T) {
	scope := cats("refused-valid", "accepted-invalid", "refusal-form", "trace", "entry-alien", "entry-content", "sct-entry", "roots-served")
	type window struct {
		name         string
		start, limit time.Time
		fmtStart     func(time.Time) string
	}
	utc := func(x time.Time) string { return x.UTC().Format(time.RFC3339) }
	zone := func(off int) func(time.Time) string {
		return func(x time.Time) string { return x.In(time.FixedZone("", off)).Format(time.RFC3339) }
	}
	d := func(y, m, dd int) time.Time { return time.Date(y, time.Month(m), dd, 0, 0, 0, 0, time.UTC) }
	wins := []window{
		{"present", d(2025, 1, 1), d(2026, 1, 1), utc},
		{"past", d(2019, 1, 1), d(2019, 7, 1), utc},
		{"future", d(2031, 6, 1), d(2032, 1, 1), utc},
		{"other zone", time.Date(2025, 3, 1, 3, 30, 0, 0, time.UTC), time.Date(2025, 9, 1, 13, 0, 7, 0, time.UTC), zone(5*3600 + 1800)},
		{"western zone", time.Date(2025, 3, 1, 3, 30, 0, 0, time.UTC), time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC), zone(-8 * 3600)},
		{"across 2050", d(2049, 6, 1), d(2051, 6, 1), utc},
		{"one day", d(2025, 5, 5), d(2025, 5, 6), utc},
	}
	n := t.N(14, 120)
	t.Parallel(n, 7, func(i int) {
		rng := t.Rand(fmt.Sprint("world", i))
		win := wins[i%len(wins)]
		w := NewWorld(WorldOpt{Mask: []int{1, 2, 5}[i%3], FlushMs: []int{6, 20}[i%2], Start: win.start, Limit: win.limit, Setup: true})
		defer w.Close()
		q := newC10PKI(w.PKI)
		w.put("ct/v1/get-roots", w.PKI.RootsJSON())
		h := Head{0, uint64(time.Now().UnixMilli()) - 1, emptyRoot}
		w.put("ct/v1/get-sth", makeSTH(w.Key, h))
		w.Aud.sth, w.Aud.haveSTH = h, true
		w.Aud.sthSizes[0] = true
		rep := func(cat, f string, args ...any) { t.report(scope, Finding{Cat: cat, Msg: fmt.Sprintf(f, args...)}, w) }
		in, err := w.BootWith(nil, func(gc *ctsubmit.GlobalConfig) {
			gc.NotAfterStart, gc.NotAfterLimit = win.fmtStart(win.start), win.fmtStart(win.limit)
		})
		if err != nil {
			t.Inconclusive("boot (%s): %v", win.name, err)
			return
		}
		var mu sync.Mutex
		accepted := map[[32]byte]*Sub{}
		okIssuers := map[[32]byte]bool{}
		run := func(p probe) {
			if p.accept {
				w.Aud.Register(p.s)
				mu.Lock()
				accepted[p.s.FP] = p.s
				for _, c := range p.s.Full[1:] {
					okIssuers[sha256.Sum256(c)] = true
				}
				mu.Unlock()
			}
			body := p.body
			if body == nil {
				body = p.s.Body()
			}
			r := call(in.H, "POST", p.path, body, 0)
			for k := 0; k < 4 && p.accept && r.Code == 503; k++ {
				r = call(in.H, "POST", p.path, body, 0)
			}
			what := fmt.Sprintf("%s (%s window [%s, %s)), %s, chain of %d, to %s", p.class, win.name, win.start, win.limit, p.s.Kind, len(p.s.Chain), p.path)
			switch {
			case r.Panic != "" || r.Hung:
				rep("refusal-form", "%s: %v", what, r)
			case p.accept && r.Code != 200:
				rep("refused-valid", "%s: %v", what, r)
			case !p.accept && r.Code < 400:
				rep("accepted-invalid", "%s: %v", what, r)
			case p.accept:
				if sct, err := parseSCT(r.Body); err != nil {
					rep("refused-valid", "%s: %v: %v", what, err, r)
				} else {
					for _, f := range w.Aud.CheckPromise(p.s, sct, w.LogID) {
						t.report(scope, f, w)
					}
				}
				t.Count("accepted", 1)
			default:
				t.Count("refused", 1)
			}
			ep := "pre"
			if strings.HasSuffix(p.path, "add-chain") {
				ep = "chain"
			}
			t.Eval(fmt.Sprintf("%s/pre=%v/%s/%s", p.class, p.s.Pre, ep, win.name))
			if rng := p.s.ID % 97; rng == 0 {
				t.Sample(map[string]any{"case": what, "must be accepted": p.accept, "answer": r.Code})
			}
		}
		audit := func(when string) {
			if !awaitHeads(w, 2, 30*time.Second) {
				return
			}
			snap := w.Store.Snapshot()
			size := int(w.Aud.Size())
			recs, deds := 0, 0
			for k, v := range snap {
				switch opKind(k) {
				case "issuer":
					if !okIssuers[sha256.Sum256(v)] {
						rep("trace", "%s: storage holds %s, a certificate that only occurs in refused submissions", when, k)
					}
				case "hash index":
					recs += len(v) / 21
				case "dedupe index":
					deds += len(v) / 29
				}
			}
			if size != len(accepted) {
				rep("trace", "%s: the log has %d entries after %d different acceptable submissions", when, size, len(accepted))
			} else if recs != size || deds > size {
				rep("trace", "%s: %d entries, but %d hash index records and %d deduplication records", when, size, recs, deds)
			}
			for _, f := range w.Aud.Findings() {
				if scope[f.Cat] {
					t.report(scope, f, w)
				}
			}
		}
		// one after another, then all at once
		for k := 0; k < t.N(120, 500); k++ {
			run(q.probe(rng))
		}
		audit("sequential")
		var ps []probe
		for k := 0; k < t.N(150, 400); k++ {
			ps = append(ps, q.probe(rng))
		}
		var wg sync.WaitGroup
		for _, p := range ps {
			wg.Add(1)
			go func() { defer wg.Done(); run(p) }()
		}
		wg.Wait()
		audit("concurrent")
		in.Kill()
		// the roots in force are those that get-roots lists at startup
		mon, _ := w.Monitor()
		for round := 0; round < 2; round++ {
			keep := q.Roots[rng.Intn(3)]
			sub := &PKI{Roots: []*CA{keep, q.Foreign}}
			if round == 1 {
				sub = &PKI{Roots: []*CA{q.rsaRoot}}
			}
			w.put("ct/v1/get-roots", sub.RootsJSON())
			r := call(mon, "GET", "/ct/v1/get-roots", nil, 0)
			var j struct {
				Certificates [][]byte `json:"certificates"`
			}
			if err := json.Unmarshal(r.Body, &j); err != nil || len(j.Certificates) != len(sub.Roots) || !bytes.Equal(j.Certificates[0], sub.Roots[0].Raw) {
				rep("roots-served", "get-roots of the read API does not list the configured roots: %v", r)
			}
			in, err = w.Boot()
			if err != nil {
				t.Inconclusive("boot with other roots: %v", err)
				return
			}
			listed := map[string]bool{}
			for _, x := range sub.Roots {
				listed[string(x.Raw)] = true
			}
			for k := 0; k < 30; k++ {
				cas := append(q.cas(), q.ForInt, q.Foreign)
				ca := cas[rng.Intn(len(cas))]
				s := q.Issue(ca, leafOpt{pre: ca.Pre || rng.Intn(2) == 0, rng: rng, omitRoot: rng.Intn(2) == 0})
				okRoot := listed[string(s.Full[len(s.Full)-1])]
				run(probe{s: s, path: s.Path(), accept: okRoot, class: fmt.Sprintf("roots changed, root listed=%v", okRoot)})
			}
			audit("roots changed")
			in.Kill()
		}
	})
	c10Config(t, scope)
	if !t.Failed() && (t.Get("accepted") < 200 || t.Get("refused") < 200) {
		t.Inconclusive("accepted %d, refused %d", t.Get("accepted"), t.Get("refused"))
	}
}

// c10Config starts logs whose window or roots cannot be made out, in whole or in part: such a log does not start, or
// accepts nothing that the rest does not admit.
func c10Config(t *T, scope map[string]bool) {
	type variant struct {
		name         string
		start, limit *string
		roots        func(p *PKI) []byte // nil result: no object
		under        func(p *PKI, ca *CA) bool
	}
	str := func(s string) *string { return &s }
	list := func(cs ...[]byte) []byte {
		b, err := json.Marshal(map[string]any{"certificates": cs})
		must(err)
		return b
	}
	var vs []variant
	for _, x := range []string{"", "soon", "2025-13-01T00:00:00Z", "2025-02-30T00:00:00Z", "2025-01-01", "0", "null"} {
		vs = append(vs, variant{name: fmt.Sprintf("window starts %q", x), start: str(x)}, variant{name: fmt.Sprintf("window ends %q", x), limit: str(x)})
	}
	vs = append(vs, variant{name: "window inverted", start: str("2026-01-01T00:00:00Z"), limit: str("2025-01-01T00:00:00Z")},
		variant{name: "window empty", start: str("2025-06-01T00:00:00Z"), limit: str("2025-06-01T00:00:00Z")})
	first := func(p *PKI, ca *CA) bool { return caPath(ca)[len(caPath(ca))-1] == p.Roots[0] }
	for name, f := range map[string]func(p *PKI) []byte{
		"no roots object":   func(p *PKI) []byte { return nil },
		"roots null":        func(p *PKI) []byte { return []byte("null") },
		"roots empty":       func(p *PKI) []byte { return list() },
		"roots not JSON":    func(p *PKI) []byte { return []byte("<html></html>") },
		"roots object {}":   func(p *PKI) []byte { return []byte("{}") },
		"roots empty file":  func(p *PKI) []byte { return []byte{} },
		"roots cut":         func(p *PKI) []byte { b := p.RootsJSON(); return b[:len(b)-1] },
		"roots cut in half": func(p *PKI) []byte { b := p.RootsJSON(); return b[:len(b)/2] },
	} {
		vs = append(vs, variant{name: name, roots: f})
	}
	for name, bad := range map[string]func(raw []byte) []byte{
		"empty":    func(raw []byte) []byte { return []byte{} },
		"cut":      func(raw []byte) []byte { return raw[:len(raw)-1] },
		"garbage":  func(raw []byte) []byte { return []byte("garbage") },
		"too long": func(raw []byte) []byte { return append(bytes.Clone(raw), 0) },
		"its name": func(raw []byte) []byte { return raw[4:] },
	} {
		vs = append(vs, variant{name: "another root is " + name, under: first, roots: func(p *PKI) []byte { return list(bad(p.Roots[1].Raw), p.Roots[0].Raw) }},
			variant{name: "another root, after it, is " + name, under: first, roots: func(p *PKI) []byte { return list(p.Roots[0].Raw, bad(p.Roots[1].Raw)) }})
	}
	slices.SortFunc(vs, func(a, b variant) int { return strings.Compare(a.name, b.name) })
	n := t.N(len(vs), 4*len(vs))
	t.Parallel(n, 7, func(i int) {
		v := vs[i%len(vs)]
		rng := t.Rand(fmt.Sprint("config", i))
		w := NewWorld(WorldOpt{FlushMs: 6, Start: time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC), Limit: time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)})
		defer w.Close()
		if v.roots != nil {
			if b := v.roots(w.PKI); b != nil {
				w.put("ct/v1/get-roots", b)
			} else {
				w.Store.Delete("ct/v1/get-roots")
			}
		}
		in, err := w.BootWith(nil, func(gc *ctsubmit.GlobalConfig) {
			if v.start != nil {
				gc.NotAfterStart = *v.start
			}
			if v.limit != nil {
				gc.NotAfterLimit = *v.limit
			}
		})
		if err != nil {
			t.Eval("config/" + v.name + "/does not start")
			return
		}
		res := "accepts nothing"
		for k := 0; k < 12; k++ {
			ca := w.PKI.Ints[rng.Intn(len(w.PKI.Ints))]
			if k%3 == 0 {
				ca = w.PKI.Roots[k/3%3]
			}
			na := []time.Time{{}, {}, time.Date(2024, 12, 31, 23, 0, 0, 0, time.UTC), time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2035, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC)}[k%6]
			s := w.PKI.Issue(ca, leafOpt{pre: rng.Intn(2) == 0, rng: rng, notAfter: na, omitRoot: rng.Intn(2) == 0})
			may := v.under != nil && v.under(w.PKI, ca) && na.IsZero()
			if may {
				w.Aud.Register(s)
			}
			r := in.Submit(s)
			if r.Code < 400 && !may {
				t.report(scope, Finding{Cat: "accepted-invalid", Msg: fmt.Sprintf("the log started with %s and accepted a certificate under %s with NotAfter %v: %v", v.name, ca.Cert.Subject, na, r)}, w)
			}
			if r.Code == 200 {
				res = "accepts what the rest admits"
			}
		}
		t.Eval("config/" + v.name + "/" + res)
		in.Kill()
	})
}
