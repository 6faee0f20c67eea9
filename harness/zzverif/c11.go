package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/sha256"
	"encoding/asn1"
	"fmt"
	"io"
	mrand "math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	checks["C11"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one request to the submission API (hostile body, genuinely signed malformed certificate, abandoned or slow request, or a client waiting while storage is stalled) watched until its single answer; " +
			"distinct = (kind of request, answer class) and (kind of write stalled, number of waiting clients, phase) combinations",
		Run: runC11,
	}
}

type rawCert struct {
	TBS asn1.RawValue
	Alg asn1.RawValue
	Sig asn1.BitString
}

// resign puts a validly signed certificate around arbitrary TBS bytes.
func resign(ca *CA, like []byte, tbs []byte) []byte {
	var c rawCert
	if _, err := asn1.Unmarshal(like, &c); err != nil {
		panic(err)
	}
	h := sha256.Sum256(tbs)
	sig, err := ecdsa.SignASN1(rand.Reader, ca.Key.(*ecdsa.PrivateKey), h[:])
	must(err)
	body := append(append([]byte{}, tbs...), c.Alg.FullBytes...)
	bs, err := asn1.Marshal(asn1.BitString{Bytes: sig, BitLength: 8 * len(sig)})
	must(err)
	body = append(body, bs...)
	return derTLV(0x30, body)
}

func derTLV(tag byte, body []byte) []byte {
	n := len(body)
	var l []byte
	switch {
	case n < 128:
		l = []byte{byte(n)}
	case n < 256:
		l = []byte{0x81, byte(n)}
	case n < 65536:
		l = []byte{0x82, byte(n >> 8), byte(n)}
	default:
		l = []byte{0x83, byte(n >> 16), byte(n >> 8), byte(n)}
	}
	return append(append([]byte{tag}, l...), body...)
}

// derChildren splits a constructed DER value.
func derChildren(b []byte) (tag byte, kids [][]byte, ok bool) {
	var v asn1.RawValue
	if rest, err := asn1.Unmarshal(b, &v); err != nil || len(rest) > 0 || !v.IsCompound {
		return 0, nil, false
	}
	for c := v.Bytes; len(c) > 0; {
		var k asn1.RawValue
		rest, err := asn1.Unmarshal(c, &k)
		if err != nil {
			return 0, nil, false
		}
		kids = append(kids, k.FullBytes)
		c = rest
	}
	return b[0], kids, true
}

// mutateDER changes one node of a DER structure, keeping all lengths right.
func mutateDER(rng *mrand.Rand, b []byte, depth int) []byte {
	tag, kids, ok := derChildren(b)
	if ok && len(kids) > 0 && (depth == 0 || rng.Intn(5) > 0) {
		i := rng.Intn(len(kids))
		if rng.Intn(2) == 0 {
			i = len(kids) - 1 // extensions
		}
		switch rng.Intn(12) {
		case 0:
			kids = append(kids[:i:i], kids[i+1:]...)
		case 1:
			kids = append(kids[:i+1:i+1], kids[i:]...)
		case 2:
			j := rng.Intn(len(kids))
			kids[i], kids[j] = kids[j], kids[i]
		case 3:
			kids = append(kids[:i+1:i+1], append([][]byte{{0x30, 0}}, kids[i+1:]...)...)
		default:
			kids[i] = mutateDER(rng, kids[i], depth+1)
		}
		return derTLV(tag, bytes.Join(kids, nil))
	}
	var v asn1.RawValue
	if _, err := asn1.Unmarshal(b, &v); err != nil {
		return b
	}
	c := append([]byte{}, v.Bytes...)
	switch rng.Intn(7) {
	case 0:
		c = nil
	case 1:
		if len(c) > 0 {
			c[rng.Intn(len(c))] ^= 1 << rng.Intn(8)
		}
	case 2:
		c = append(c, byte(rng.Intn(256)))
	case 3:
		c = bytes.Repeat([]byte{0xff}, len(c))
	case 4:
		c = make([]byte, rng.Intn(300))
		rng.Read(c)
	case 5:
		return derTLV(byte(rng.Intn(256))&^0x1f|byte(1+rng.Intn(30)), c)
	case 6:
		if len(c) > 0 {
			c = c[:len(c)-1]
		}
	}
	return derTLV(b[0], c)
}

func tbsOf(cert []byte) []byte {
	var c rawCert
	_, err := asn1.Unmarshal(cert, &c)
	must(err)
	return c.TBS.FullBytes
}

// hostileBody makes a body that is not an acceptable submission (or only by luck).
func hostileBody(rng *mrand.Rand, w *World) (path string, body []byte, kind string) {
	p := w.PKI
	path = []string{"/ct/v1/add-chain", "/ct/v1/add-pre-chain"}[rng.Intn(2)]
	js := func(parts ...[]byte) []byte { s := &Sub{Chain: parts}; return s.Body() }
	switch k := rng.Intn(19); k {
	case 11, 12:
		pre, c := p.oddChain(rng)
		if pre {
			path = "/ct/v1/add-pre-chain"
		}
		return path, js(c...), fmt.Sprintf("around an unusual root, %d certificates", len(c))
	case 0:
		b := make([]byte, rng.Intn(2000))
		rng.Read(b)
		return path, b, "random bytes"
	case 1:
		return path, bytes.Repeat([]byte("["), 1+rng.Intn(120000)), "nested arrays"
	case 2:
		return path, []byte(`{"chain":` + strings.Repeat(`[`, 10) + strings.Repeat(`]`, 10) + `}`), "wrong type"
	case 3:
		v := []string{`{"chain":"x"}`, `{"chain":5}`, `{"chain":[5]}`, `{"chain":[null]}`, `{"chain":[""]}`, `{"chain":["",""]}`, `{"chain":{}}`, `[]`, `null`, `"x"`, `5`, ``, ` `, `{"chain":[]}x`, `{"chain":["AA=="]}`, `{"chain":["MIIB"]}`, "{\"chain\":[\"\xff\xfe\"]}", `{"CHAIN":[]}`, `{"chain":[[]]}`, `{"chain":["MAA="]}`, `{"chain":["MAMCAQE="]}`}
		return path, []byte(v[rng.Intn(len(v))]), "json: " + v[0][:3]
	case 4:
		var parts [][]byte
		for i := 0; i < 1+rng.Intn(9000); i++ {
			parts = append(parts, []byte{0x30})
		}
		return path, js(parts...), "very many elements"
	case 5:
		return path, js(make([]byte, 90000+rng.Intn(8000))), "one huge element"
	case 6:
		s := p.Small(rng)
		return path, append(s.Body(), make([]byte, 200000)...), "too long a body"
	case 7:
		s := p.Issue(p.Ints[0], leafOpt{pad: 130000 + rng.Intn(100000), rng: rng, pre: rng.Intn(2) == 0})
		return s.Path(), s.Body(), "too large a certificate"
	case 8:
		s := p.Small(rng)
		b := s.Body()
		for i := 0; i < 1+rng.Intn(4); i++ {
			b[rng.Intn(len(b))] = byte(rng.Intn(256))
		}
		return s.Path(), b, "valid body with bytes changed"
	case 9:
		s := p.Small(rng)
		b := s.Body()
		return s.Path(), b[:rng.Intn(len(b))], "cut off"
	case 10:
		// many copies of a certificate
		var parts [][]byte
		s := p.Small(rng)
		parts = append(parts, s.Full[0])
		for len(parts) < 50 {
			parts = append(parts, p.Ints[rng.Intn(len(p.Ints))].Raw)
		}
		return s.Path(), js(parts...), "long chain"
	default:
		// the log sees a certificate that was really signed, but is malformed inside
		ca := append(append([]*CA{}, p.Ints...), p.Pres...)[rng.Intn(len(p.Ints)+len(p.Pres))]
		pre := ca.Pre || rng.Intn(3) > 0
		s := p.Issue(ca, leafOpt{pre: pre, rng: rng})
		tbs := tbsOf(s.Full[0])
		for i := 0; i < 1+rng.Intn(2); i++ {
			tbs = mutateDER(rng, tbs, 0)
		}
		leaf := resign(ca, s.Full[0], tbs)
		if _, err := asn1.Unmarshal(leaf, &rawCert{}); err != nil {
			kind = " (not DER)"
		}
		chain := append([][]byte{leaf}, s.Full[1:]...)
		if k > 16 && len(chain) > 2 {
			// also a malformed, really signed intermediate
			it := resign(ca.Up, ca.Raw, mutateDER(rng, tbsOf(ca.Raw), 0))
			chain[1] = it
			kind += " and intermediate"
		}
		return s.Path(), js(chain...), "signed malformed certificate" + kind
	}
}

func runC11(t *T) {
	scope := cats(append([]string{"no-answer", "submit-panic", "two-answers", "stall-answer", "no-recovery", "head-root", "sct-answer"}, promiseCats...)...)
	answered := func(w *World, what string, r *Resp) bool {
		rep := func(cat, f string, args ...any) {
			t.report(scope, Finding{Cat: cat, Msg: what + ": " + fmt.Sprintf(f, args...)}, w)
		}
		switch {
		case r.Panic != "":
			rep("submit-panic", "the handler panics: %s\n%s", r.Panic, r.Stack)
			return false
		case r.Hung:
			rep("no-answer", "no answer in %v", r.Elapsed)
			return false
		case r.Headers > 1:
			rep("two-answers", "the handler wrote %d status lines", r.Headers)
			return false
		case r.Code != 200 && (r.Code < 400 || r.Code > 599):
			rep("no-answer", "answer %v", r)
			return false
		case r.Code == 503 && r.Header.Get("Retry-After") == "":
			rep("stall-answer", "503 without Retry-After")
			return false
		}
		return true
	}
	var jobs []func()
	for k := 0; k < t.N(8, 60); k++ {
		jobs = append(jobs, func() {
			rng := t.Rand(fmt.Sprint("hostile", k))
			w := NewWorld(WorldOpt{Mask: []int{1, 2, 5}[k%3], FlushMs: []int{5, 20}[k%2], Open: true})
			defer w.Close()
			if k%4 != 3 {
				w.PKI.AddOdd()
				w.put("ct/v1/get-roots", w.PKI.RootsJSON())
			} else {
				w.PKI.Odd = w.PKI.Lone
			}
			in, err := w.Boot()
			if err != nil {
				t.Inconclusive("boot: %v", err)
				return
			}
			// meanwhile honest clients are served
			var done atomic.Bool
			var wg sync.WaitGroup
			honest := func(r *mrand.Rand, phase string) {
				s := w.PKI.Random(r)
				sct, resp := in.MustClient(t, s, nil, scope)
				if !answered(w, "honest submission "+phase, resp) {
					return
				}
				if sct == nil {
					t.report(scope, Finding{Cat: "no-recovery", Msg: fmt.Sprintf("valid submission %s is answered with %v", phase, resp)}, w)
				}
				t.Eval("honest " + phase)
			}
			hr := mrand.New(mrand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !done.Load() && !t.Failed() {
					honest(hr, "during hostile traffic")
				}
			}()
			t.Parallel(6, 6, func(c int) {
				r := t.Rand(fmt.Sprint("hostile", k, "/", c))
				for j := 0; j < t.N(200, 2000) && !t.Failed(); j++ {
					path, body, kind := hostileBody(r, w)
					if r.Intn(40) == 0 {
						// the client goes away while the log works on it
						quit := make(chan struct{})
						go func() { time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond); close(quit) }()
						s := w.PKI.Small(hr2(r))
						callQ(in.H, "POST", s.Path(), s.Body(), 0, quit)
						t.Eval("abandoned")
						continue
					}
					resp := call(in.H, "POST", path, body, 60*time.Second)
					answered(w, fmt.Sprintf("%s (%d bytes to %s, starts %.120q)", kind, len(body), path, body), resp)
					t.Eval(fmt.Sprintf("%s/%d", kind, resp.Code))
				}
			})
			for _, x := range [][2]string{{"GET", "/ct/v1/add-chain"}, {"PUT", "/ct/v1/add-pre-chain"}, {"POST", "/ct/v1/add-chain/"}, {"POST", "/"}, {"POST", "/ct/v1/get-sth"}, {"HEAD", "/ct/v1/add-chain"}} {
				r := call(in.H, x[0], x[1], []byte("x"), 60*time.Second)
				if answered(w, x[0]+" "+x[1], r) && r.Code == 200 {
					t.report(scope, Finding{Cat: "sct-answer", Msg: fmt.Sprintf("%s %s: %v", x[0], x[1], r)}, w)
				}
			}
			done.Store(true)
			wg.Wait()
			for j := 0; j < 5; j++ {
				honest(rng, "after hostile traffic")
			}
			// over real connections: slow and broken clients
			wire11(t, w, in, rng, scope)
			honest(rng, "after broken connections")
			t.Drain(scope, w)
		})
	}
	stalls := []string{"all", "everything", "lookups", "sth", "checkpoint", "data tile", "hash tile", "issuer", "hash index", "dedupe index"}
	for k := 0; k < t.N(11, 44); k++ {
		jobs = append(jobs, func() {
			rng := t.Rand(fmt.Sprint("stall", k))
			kind := stalls[k%len(stalls)]
			var long time.Duration // how long the first stall lasts at least
			if k%11 == 10 {
				kind, long = "all", time.Duration(t.N(26, 26+k))*time.Second
			}
			flush := []int{5, 30, 150}[k%3]
			if long > 0 {
				flush = 400
			}
			w := NewWorld(WorldOpt{Mask: []int{2, 5}[k%2], FlushMs: flush})
			defer w.Close()
			in, err := w.Boot()
			if err != nil {
				t.Inconclusive("boot: %v", err)
				return
			}
			var led Ledger
			burst(t, in, rng, 20, scope, &led)
			for round := 0; round < t.N(2, 4); round++ {
				release := make(chan struct{})
				began := time.Now()
				stall := func() {
					in.GW.SetPolicy(func(op *Op) Action {
						switch {
						case kind == "everything", kind == "lookups" && op.Method == "GET" && opKind(op.Key) == "dedupe index",
							op.Method == "PUT" && (kind == "all" || opKind(op.Key) == kind):
							return Action{Wait: release}
						}
						return Action{}
					})
				}
				early := long == 0 && rng.Intn(2) == 0 // empty batches pile up before there is a submission
				if early {
					stall()
				}
				// waves of clients: they fill the pool, the channels between the stages and then wait for room
				n := []int{1500, 700, 300, 40}[(k+k/10+round)%4]
				if long > 0 {
					n = 1100
				}
				subs := make([]*Sub, n)
				fresh := w.PKI.NewCA(w.PKI.Ints[0], caOpt{})
				for j := range subs {
					subs[j] = w.PKI.Small(rng)
					if kind == "issuer" {
						subs[j] = w.PKI.Issue(fresh, leafOpt{rng: rng, pre: j%2 == 0})
					}
					w.Aud.Register(subs[j])
				}
				if !early {
					stall()
				}
				var wg sync.WaitGroup
				var c200, c503, other int64
				for j, s := range subs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						wait := time.Duration(j%10) * 40 * time.Millisecond
						if long > 0 && round == 0 { // during all of it, more at first
							wait = time.Duration(float64(long-6*time.Second) * float64(j) * float64(j) / float64(n*n))
						}
						time.Sleep(wait)
						r := call(in.H, "POST", s.Path(), s.Body(), 60*time.Second)
						what := fmt.Sprintf("client %d of %d while storage is stalled (%q)", j, n, kind)
						if !answered(w, what, r) {
							return
						}
						switch r.Code {
						case 200:
							atomic.AddInt64(&c200, 1)
							if sct, err := parseSCT(r.Body); err == nil {
								for _, f := range w.Aud.CheckPromise(s, sct, w.LogID) {
									t.report(scope, f, w)
								}
							}
						case 503:
							atomic.AddInt64(&c503, 1)
						default:
							atomic.AddInt64(&other, 1)
							t.report(scope, Finding{Cat: "stall-answer", Msg: fmt.Sprintf("%s: answer %v instead of 503", what, r)}, w)
						}
					}()
				}
				wg.Wait()
				if round == 0 {
					time.Sleep(time.Until(began.Add(long)))
				}
				close(release)
				in.GW.SetPolicy(nil)
				t.Count("answers 503 while stalled", c503)
				t.Count("answers 200 while stalled", c200)
				t.Eval(fmt.Sprintf("stalled %s/%d waiting", kind, n))
				if (kind == "all" || kind == "everything" || kind == "lookups") && c503 != int64(n) && !t.Failed() {
					t.report(scope, Finding{Cat: "stall-answer", Msg: fmt.Sprintf("%d of %d clients were not answered with 503 while storage stalled (%s)", int64(n)-c503, n, kind)}, w)
				}
				// recovery
				ok := false
				var last *Resp
				for try := 0; try < 12 && !ok; try++ {
					s := w.PKI.Small(rng)
					var sct *SCT
					sct, last = in.Client(t, s, &led, scope)
					ok = sct != nil
				}
				if !ok {
					t.report(scope, Finding{Cat: "no-recovery", Msg: fmt.Sprintf("after writes of kind %q were stalled and resumed, submissions are still not accepted: %v", kind, last)}, w)
					return
				}
				burst(t, in, rng, 60, scope, &led)
				t.Eval("recovered from " + kind)
			}
			t.Drain(scope, w)
		})
	}
	// longest jobs first
	for i, j := 0, len(jobs)-1; i < j; i, j = i+1, j-1 {
		jobs[i], jobs[j] = jobs[j], jobs[i]
	}
	t.Parallel(len(jobs), 8, func(i int) { jobs[i]() })
	if !t.Failed() && t.Get("answers 503 while stalled") < 100 {
		t.Inconclusive("only %d answers while stalled", t.Get("answers 503 while stalled"))
	}
}

func hr2(r *mrand.Rand) *mrand.Rand { return mrand.New(mrand.NewSource(r.Int63())) }

// wire11 serves the instance on a socket to clients that are slow, break off or send broken HTTP.
func wire11(t *T, w *World, in *Inst, rng *mrand.Rand, scope map[string]bool) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	srv := &http.Server{Handler: in.H}
	go srv.Serve(ln)
	defer srv.Close()
	var idle []net.Conn
	for k := 0; k < 60; k++ {
		c, err := net.Dial("tcp", ln.Addr().String())
		must(err)
		c.SetDeadline(time.Now().Add(60 * time.Second))
		s := w.PKI.Small(rng)
		b := s.Body()
		switch k % 4 {
		case 0: // never finishes its body
			fmt.Fprintf(c, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", s.Path(), len(b), b[:len(b)/2])
			idle = append(idle, c)
			continue
		case 1: // breaks off
			fmt.Fprintf(c, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", s.Path(), len(b), b[:len(b)/2])
			c.Close()
			continue
		case 2: // chunked
			fmt.Fprintf(c, "POST %s HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n", s.Path())
			for i := 0; i < len(b); i += 700 {
				e := min(i+700, len(b))
				fmt.Fprintf(c, "%x\r\n%s\r\n", e-i, b[i:e])
			}
			fmt.Fprintf(c, "0\r\n\r\n")
		case 3:
			fmt.Fprintf(c, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", s.Path(), len(b), b)
		}
		resp, err := http.ReadResponse(bufio.NewReader(c), nil)
		if err != nil {
			t.report(scope, Finding{Cat: "no-answer", Msg: fmt.Sprintf("submission over a connection (variant %d): %v", k%4, err)}, w)
			c.Close()
			continue
		}
		body, err := io.ReadAll(resp.Body)
		if err != nil || (resp.StatusCode != 200 && resp.StatusCode != 503) {
			t.report(scope, Finding{Cat: "no-answer", Msg: fmt.Sprintf("submission over a connection (variant %d): %d %.200q %v", k%4, resp.StatusCode, body, err)}, w)
		}
		t.Eval(fmt.Sprintf("connection variant %d/%d", k%4, resp.StatusCode))
		c.Close()
	}
	for _, c := range idle {
		c.Close()
	}
}
