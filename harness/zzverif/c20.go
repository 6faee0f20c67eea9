//go:build verifedge

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fastly/compute-sdk-go/cache/simple"
	"github.com/fastly/compute-sdk-go/configstore"
	"github.com/fastly/compute-sdk-go/fsthttp"
	"github.com/fastly/compute-sdk-go/fsttest"
	"itko.dev/internal/ctmonitor"
)

func init() {
	checks["C20"] = Check{
		Level: "exploration",
		Rule: "one evaluation = one request to the real edge handler (only the calls into the Fastly host are replaced), compared with the monitor server's answer to the same request or judged against the audited log; " +
			"distinct = (endpoint and parameter kinds, log size class, cache state, fault) combinations",
		Run: runC20,
	}
}

// ---------------------------------------------------------------- one POP with its hosts and backends

type edgeOp struct {
	n       int64 // position within the faulty phase
	backend string
	key     string
}

type edgeFault struct {
	status int
	send   bool // no response at all
	trunc  bool // the body breaks off
}

type edgeBackend struct {
	w            *World
	cacheControl func(key string) string
}

type POP struct {
	mu       sync.Mutex
	backends map[string]*edgeBackend
	hosts    map[string]string
	fault    func(op edgeOp) edgeFault
	ops      int64
	log      []string
}

func NewPOP() *POP {
	p := &POP{backends: map[string]*edgeBackend{}, hosts: map[string]string{}}
	simple.VerifPOP.Reset()
	fsthttp.VerifSend = p.send
	configstore.VerifFail(nil)
	p.publish()
	return p
}

func (p *POP) publish() { configstore.VerifSet("hostmap", p.hosts) }

func (p *POP) Host(host, backend string, w *World) *edgeBackend {
	p.mu.Lock()
	defer p.mu.Unlock()
	b := &edgeBackend{w: w}
	p.backends[backend] = b
	p.hosts[host] = backend
	p.publish()
	return b
}

func (p *POP) tail() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string{}, p.log...)
}

// brokenBody fails in the middle.
type brokenBody struct{ r io.Reader }

func (b *brokenBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset while reading the body")
	}
	return n, err
}

func (b *brokenBody) Close() error { return nil }

func (p *POP) send(ctx context.Context, method string, u *url.URL, backend string) (*fsthttp.Response, error) {
	key := strings.TrimPrefix(u.Path, "/")
	p.mu.Lock()
	b := p.backends[backend]
	p.ops++
	op := edgeOp{p.ops, backend, key}
	f := p.fault
	var act edgeFault
	if f != nil {
		act = f(op)
	}
	if len(p.log) > 60 {
		p.log = p.log[30:]
	}
	p.log = append(p.log, fmt.Sprintf("%s https://%s/%s to %s fault=%+v", method, u.Host, key, backend, act))
	p.mu.Unlock()
	if b == nil {
		return nil, fsthttp.ErrBackendNotFound
	}
	// the platform allows a limited number of backend requests per client request
	if n, ok := ctx.Value(reqCount{}).(*int64); ok && atomic.AddInt64(n, 1) > 32 {
		return nil, errors.New("FastlyStatusLimitExceeded: limit exceeded")
	}
	if act.send {
		return nil, errors.New("poll: host error")
	}
	data, ok := b.w.Get(key)
	r := &fsthttp.Response{StatusCode: 200, Header: fsthttp.NewHeader()}
	switch {
	case act.status != 0:
		r.StatusCode = act.status
		r.Body = io.NopCloser(strings.NewReader("<Error/>"))
		return r, nil
	case !ok:
		r.StatusCode = 404
		r.Body = io.NopCloser(strings.NewReader("<Error><Code>NoSuchKey</Code></Error>"))
		return r, nil
	}
	if b.cacheControl != nil {
		if c := b.cacheControl(key); c != "" {
			r.Header.Set("Cache-Control", c)
		}
	}
	r.Body = io.NopCloser(bytes.NewReader(data))
	if act.trunc {
		r.Body = &brokenBody{bytes.NewReader(data[:len(data)/2])}
	}
	return r, nil
}

// edge is the handler for one host name, as an http.Handler.
type edge struct {
	host string
}

type reqCount struct{}

func (e edge) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	fr, err := fsthttp.NewRequest(r.Method, "https://"+e.host+r.URL.RequestURI(), r.Body)
	if err != nil {
		http.Error(w, "harness: "+err.Error(), 400)
		return
	}
	rec := fsttest.NewRecorder()
	fetches := new(int64)
	ctmonitor.FastlyServe(context.WithValue(r.Context(), reqCount{}, fetches), rec, fr)
	w.Header().Set(fetchesHeader, fmt.Sprint(atomic.LoadInt64(fetches)))
	for k, v := range rec.HeaderMap {
		w.Header()[k] = v
	}
	w.WriteHeader(rec.Code)
	w.Write(rec.Body.Bytes())
}

// ---------------------------------------------------------------- comparison

// sameAnswer compares the edge's answer with the server's for a log that does not change.
func sameAnswer(target string, rs, re *Resp, mayBeEmpty bool) error {
	if re.Panic != "" || re.Hung {
		return fmt.Errorf("edge: %v\n%s", re, re.Stack)
	}
	if rs.Panic != "" || rs.Hung {
		return nil // judged elsewhere
	}
	if rs.Code >= 500 && re.Code >= 500 {
		return nil // the data is not there; which of the fetches fails first depends on the range
	}
	if rs.Code != re.Code {
		return fmt.Errorf("server: %v, edge: %v", rs, re)
	}
	if rs.Code != 200 {
		return nil
	}
	if a, b := rs.Header.Get("Content-Type"), re.Header.Get("Content-Type"); a != b {
		return fmt.Errorf("server answers with content type %q, edge with %q", a, b)
	}
	if strings.HasPrefix(target, "/ct/v1/get-entries") {
		var s, e entriesAnswer
		if err := json.Unmarshal(re.Body, &e); err != nil {
			return fmt.Errorf("edge: %v", err)
		}
		if err := json.Unmarshal(rs.Body, &s); err != nil {
			return nil
		}
		if len(e.Entries) > len(s.Entries) {
			return fmt.Errorf("edge returns %d entries, server %d", len(e.Entries), len(s.Entries))
		}
		if len(e.Entries) == 0 && len(s.Entries) > 0 && !mayBeEmpty {
			return fmt.Errorf("edge returns no entries, server %d", len(s.Entries))
		}
		if !reflect.DeepEqual(s.Entries[:len(e.Entries)], e.Entries) {
			return fmt.Errorf("the %d entries the edge returns are no prefix of the %d the server returns", len(e.Entries), len(s.Entries))
		}
		return nil
	}
	var s, e any
	json.Unmarshal(rs.Body, &s)
	if err := json.Unmarshal(re.Body, &e); err != nil || !reflect.DeepEqual(s, e) {
		return fmt.Errorf("server: %v, edge: %v", rs, re)
	}
	return nil
}

func endpoint(target string) string {
	e, _, _ := strings.Cut(strings.TrimPrefix(target, "/ct/v1/"), "?")
	return e
}

func runC20(t *T) {
	os.Setenv("FASTLY_SERVICE_VERSION", fmt.Sprint(1+t.Rand("version").Intn(90)))
	os.Setenv("FASTLY_HOSTNAME", "cache-xyz")
	steps := []func(*T){c20static, c20lagging, c20faults, c20routing, c20growing, c20longChains, c20stepped}
	for i, f := range steps {
		start := time.Now()
		f(t)
		t.Count(fmt.Sprintf("ms in phase %d", i), time.Since(start).Milliseconds())
		if t.Failed() {
			break
		}
	}
}

var c20sizes = []uint64{0, 1, 2, 3, 75, 76, 77, 200, 255, 256, 257, 258, 330, 511, 512, 513, 1000, 1025, 2047, 2048, 3000, 4096,
	65535, 65536, 65537, 70000, 1<<24 - 1, 1 << 24, 1<<32 + 300, 1<<40 - 1}

// c20static: logs that do not change, all hosts of one POP interleaved.
func c20static(t *T) {
	rng := t.Rand("static")
	for round := 0; round < t.N(2, 12); round++ {
		p := NewPOP()
		type site struct {
			w      *World
			m      *MonClient
			server http.Handler
			host   string
			size   uint64
		}
		var sites []site
		sizes := append([]uint64{}, c20sizes...)
		for k := 0; k < 3; k++ {
			sizes = append(sizes, 1+uint64(rng.Intn(3000)))
		}
		sizes = append(sizes, 513, 513) // logs of one size, which only their content tells apart
		for i, n := range sizes {
			w := NewWorld(WorldOpt{Issuers: []int{2, 8, 20}[rng.Intn(3)], Chain: []int{0, 1, 3, 6}[rng.Intn(4)]})
			defer w.Close()
			if n > 0 {
				w.Prefill(rng, n)
			}
			b := p.Host(fmt.Sprintf("ct%d.example", i), fmt.Sprintf("store%d", i), w)
			if rng.Intn(2) == 0 {
				b.cacheControl = func(string) string { return "public, max-age=3600" }
			}
			mon, _ := w.Monitor()
			s := site{w, &MonClient{H: edge{host: fmt.Sprintf("ct%d.example", i)}, Edge: true}, mon, fmt.Sprintf("ct%d.example", i), n}
			sites = append(sites, s)
			if i%5 == 0 { // a second name of the same log
				p.hosts[fmt.Sprintf("alias%d.example", i)] = fmt.Sprintf("store%d", i)
				p.publish()
				s.host = fmt.Sprintf("alias%d.example", i)
				s.m = &MonClient{H: edge{host: s.host}, Edge: true}
				sites = append(sites, s)
			}
		}
		var wg sync.WaitGroup
		for c := 0; c < 6; c++ {
			rng := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < t.N(900, 1800) && !t.Failed(); k++ {
					if rng.Intn(400) == 0 {
						simple.VerifPOP.Reset()
					}
					s := sites[rng.Intn(len(sites))]
					state := "warm"
					if rng.Intn(3) == 0 {
						simple.VerifPOP.Reset()
						state = "cold"
					}
					q := genQuery(rng, s.w, s.m)
					if rng.Intn(4) == 0 && s.size > 0 {
						a, b := randRange(rng, s.w.Aud.base, s.size)
						q = query{target: fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", a, b), class: "get-entries/" + rangeClass(a, b, s.size), valid: 1,
							judge: func(r *Resp) error { _, err := s.m.judgeEntries(s.w, a, b, r); return err }}
					}
					rs := call(s.server, "GET", q.target, nil, 0)
					re := s.m.get(q.target)
					if err := sameAnswer(q.target, rs, re, false); err != nil {
						t.ViolateW("edge-differs:"+endpoint(q.target), p.tail(), "log of size %d, cache %s, %s: %v", s.size, state, q.target, err)
						continue
					}
					if re.Code == 200 && q.judge != nil && q.valid >= 0 {
						if err := q.judge(re); err != nil {
							t.ViolateW("edge-wrong:"+endpoint(q.target), p.tail(), "log of size %d, cache %s, %s: %v", s.size, state, q.target, err)
						}
					}
					t.Eval(q.class + "/tree " + sizeClass(s.size) + "/" + state)
				}
			}()
		}
		wg.Wait()
		// monitors follow a whole log through the edge
		for _, s := range sites {
			if s.size == 0 || s.size > 4096 {
				continue
			}
			n, err := s.m.retrieveAll(s.w, s.w.Aud.base, s.size, func() uint64 { return 1 + uint64(rng.Intn(300)) })
			if err != nil {
				t.ViolateW("edge-retrieval", p.log, "log of size %d cannot be retrieved through the edge: %v", s.size, err)
			}
			t.Count("whole logs retrieved through the edge", 1)
			t.Count("ranges in whole retrievals", int64(n))
		}
		t.Count("cache hits", int64(simple.VerifPOP.Hits))
		t.Count("backend requests", p.ops)
	}
}

// c20lagging: the head the edge sees is older than the tiles, whose partial versions are gone.
func c20lagging(t *T) {
	rng := t.Rand("lagging")
	for k := 0; k < t.N(24, 150) && !t.Failed(); k++ {
		p := NewPOP()
		w := NewWorld(WorldOpt{Issuers: 4})
		n := []uint64{256, 300, 512, 513, 900, 1300, 2600}[k%7]
		w.Prefill(rng, n)
		m := 1 + uint64(rng.Int63n(int64(n/256*256)))
		// partial tiles are removed when the full tile is there
		w.publishedSizes([]uint64{m})
		for _, key := range w.Store.Keys("tile/") {
			if id, ok := parseTilePath(key); ok && id.W < 256 {
				id.W = 256
				if _, full := w.Get(id.Path()); full {
					w.Store.Delete(key)
				}
			}
		}
		w.put("ct/v1/get-sth", makeSTH(w.Key, Head{m, w.Aud.sth.TS, w.Aud.Root(m)}))
		p.Host("h.example", "b", w)
		mon, _ := w.Monitor()
		e := &MonClient{H: edge{host: "h.example"}, Edge: true}
		for q := 0; q < 30; q++ {
			if rng.Intn(3) == 0 {
				simple.VerifPOP.Reset()
			}
			i, s := uint64(rng.Int63n(int64(m))), uint64(0)
			s = i + 1 + uint64(rng.Int63n(int64(m-i)))
			if rng.Intn(2) == 0 {
				s = m
			}
			for who, c := range map[string]*MonClient{"edge": e, "server": {H: mon}} {
				var err error
				var kind string
				switch q % 4 {
				case 0:
					kind, err = "consistency", c.CheckConsistency(w, i, s)
				case 1:
					kind, err = "proof by hash", c.CheckProofByHash(w, i, s)
				case 2:
					kind, err = "entry and proof", c.CheckEntryAndProof(w, i, s)
				case 3:
					end := i + uint64(rng.Intn(100))
					r := c.get(fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", i, end))
					kind = "entries"
					if r.Code != 200 || r.Panic != "" || r.Hung {
						err = fmt.Errorf("%v", r)
					} else if cnt, e := c.judgeEntries(w, i, min(end, m-1), r); e != nil {
						err = fmt.Errorf("%d entries: %v", cnt, e)
					}
				}
				if err != nil {
					t.ViolateW("partial-tile-gone:"+who, p.log, "head of size %d, full tiles of a log of size %d, %s of %d in %d by the %s: %v", m, n, kind, i, s, who, err)
				}
				t.Eval(fmt.Sprintf("partial tiles gone/%s/%s/%s", kind, who, sizeClass(m)))
			}
		}
		w.Close()
	}
}

// c20faults: backend failures are never answered with success, and never remembered.
func c20faults(t *T) {
	rng := t.Rand("faults")
	p := NewPOP()
	type site struct {
		w *World
		m *MonClient
		s http.Handler
	}
	var sites []site
	for i, n := range []uint64{3, 257, 600, 1024, 2600, 70000} {
		w := NewWorld(WorldOpt{Issuers: 3})
		defer w.Close()
		w.Prefill(rng, n)
		p.Host(fmt.Sprintf("f%d.example", i), fmt.Sprintf("fstore%d", i), w)
		mon, _ := w.Monitor()
		sites = append(sites, site{w, &MonClient{H: edge{host: fmt.Sprintf("f%d.example", i)}, Edge: true}, mon})
	}
	kinds := []struct {
		name string
		f    edgeFault
	}{{"500", edgeFault{status: 500}}, {"503", edgeFault{status: 503}}, {"403", edgeFault{status: 403}}, {"404", edgeFault{status: 404}},
		{"302", edgeFault{status: 302}}, {"204", edgeFault{status: 204}}, {"206", edgeFault{status: 206}}, {"no response", edgeFault{send: true}}, {"truncated", edgeFault{trunc: true}}}
	for k := 0; k < t.N(2500, 20000) && !t.Failed(); k++ {
		s := sites[rng.Intn(len(sites))]
		a := s.w.Aud
		n := a.Size()
		i := a.base + uint64(rng.Int63n(int64(n-a.base)))
		sz := i + 1 + uint64(rng.Int63n(int64(n-i)))
		if rng.Intn(2) == 0 {
			sz = n
		}
		end := i + uint64(rng.Intn(90))
		lh := a.LeafHash(i)
		var target string
		var judge func(r *Resp) error
		switch k % 4 {
		case 0:
			target = fmt.Sprintf("/ct/v1/get-sth-consistency?first=%d&second=%d", i, sz)
			judge = func(r *Resp) error { return s.m.judgeConsistency(s.w, i, sz, r) }
		case 1:
			target = fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", esc(lh[:]), sz)
			judge = func(r *Resp) error { return s.m.judgeProofByHash(s.w, lh, sz, r) }
		case 2:
			target = fmt.Sprintf("/ct/v1/get-entry-and-proof?leaf_index=%d&tree_size=%d", i, sz)
			judge = func(r *Resp) error { return s.m.judgeEntryAndProof(s.w, i, sz, r) }
		case 3:
			target = fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", i, end)
			judge = func(r *Resp) error { _, err := s.m.judgeEntries(s.w, i, end, r); return err }
		}
		kd := kinds[rng.Intn(len(kinds))]
		first := 1 + int64(rng.Intn(7))
		sticky := rng.Intn(2) == 0
		if rng.Intn(3) > 0 {
			simple.VerifPOP.Reset()
		}
		var hit int64
		p.mu.Lock()
		start := p.ops
		p.fault = func(op edgeOp) edgeFault {
			if x := op.n - start; x == first || (sticky && x > first) {
				hit++
				return kd.f
			}
			return edgeFault{}
		}
		p.mu.Unlock()
		r := s.m.get(target)
		p.mu.Lock()
		p.fault = nil
		p.mu.Unlock()
		cl := fmt.Sprintf("%s/%s at %d/sticky=%v", endpoint(target), kd.name, first, sticky)
		switch {
		case r.Panic != "" || r.Hung:
			t.ViolateW("edge-fault-panic:"+endpoint(target), p.log, "%s with %s: %v\n%s", target, cl, r, r.Stack)
		case r.Code == 200:
			if err := judge(r); err != nil {
				t.ViolateW("edge-fault-wrong:"+endpoint(target), p.log, "%s with %s: %v: %v", target, cl, err, r)
			}
			if hit > 0 {
				t.Count("correct answers in spite of a fault", 1)
			}
		case r.Code < 400:
			t.ViolateW("edge-fault-status:"+endpoint(target), p.log, "%s with %s: %v", target, cl, r)
		default:
			if hit == 0 {
				t.ViolateW("edge-error-without-fault:"+endpoint(target), p.log, "%s: %v", target, r)
			}
			t.Count("faults passed on as errors", 1)
		}
		if hit > 0 {
			t.Eval("fault/" + cl)
		}
		// the fault is over
		r = s.m.get(target)
		if r.Panic != "" || r.Hung || r.Code != 200 {
			t.ViolateW("edge-fault-remembered:"+endpoint(target), p.log, "%s after %s: %v", target, cl, r)
		} else if err := judge(r); err != nil {
			t.ViolateW("edge-fault-remembered:"+endpoint(target), p.log, "%s after %s: %v", target, cl, err)
		}
		t.Eval("")
	}
}

// c20routing: methods, hosts and paths that must be refused, and hosts that change their backend.
func c20routing(t *T) {
	rng := t.Rand("routing")
	p := NewPOP()
	mk := func(i int, n uint64) *World {
		w := NewWorld(WorldOpt{})
		w.Prefill(rng, n)
		p.Host(fmt.Sprintf("r%d.example", i), fmt.Sprintf("rstore%d", i), w)
		return w
	}
	w0, w1 := mk(0, 300), mk(1, 300)
	defer w0.Close()
	defer w1.Close()
	good := []string{"/ct/v1/get-sth-consistency?first=1&second=2", "/ct/v1/get-entries?start=0&end=3", "/ct/v1/get-entry-and-proof?leaf_index=1&tree_size=7"}
	refuse := func(what string, h http.Handler, method, target string, body []byte) {
		r := call(h, method, target, body, 0)
		if r.Panic != "" || r.Hung || r.Code < 400 {
			t.ViolateW("edge-accepts:"+what, p.log, "%s %s: %v", method, target, r)
		}
		t.Eval("refused/" + what + "/" + method)
	}
	for _, g := range good {
		for _, m := range []string{"POST", "PUT", "PATCH", "DELETE"} {
			for _, body := range [][]byte{nil, []byte("x=1"), bytes.Repeat([]byte("a"), 200000)} {
				refuse("method", edge{host: "r0.example"}, m, g, body)
			}
		}
		for _, h := range []string{"", "r2.example", "example", "r0.example.evil", "xr0.example", "rstore0", "r0.example:443", "r0.example.", "[::1]", "127.0.0.1"} {
			refuse("host", edge{host: h}, "GET", g, nil)
		}
	}
	for _, path := range []string{"/", "/ct/v1", "/ct/v1/", "/ct/v1/get-entries/", "/ct/v1//get-entries", "//ct/v1/get-entries", "/ct/v2/get-entries", "/ct/v1/get-entriesx", "/ct/v1/get-entry", "/get-entries",
		"/int/hashes/00", "/ct/v1/add-chain", "/ct/v1/add-pre-chain", "/checkpoint", "/tile/0/000", "/tile/data/000", "/ct/v1/get-entries/../../../checkpoint", "/CT/V1/GET-ENTRIES"} {
		for _, qs := range []string{"", "?start=0&end=3", "?first=1&second=2"} {
			refuse("path", edge{host: "r0.example"}, "GET", path+qs, nil)
		}
	}
	// no configuration
	configstore.VerifSet("hostmap", nil)
	for _, g := range good {
		refuse("no config store", edge{host: "r0.example"}, "GET", g, nil)
	}
	p.publish()
	configstore.VerifFail(errors.New("unexpected error"))
	for _, g := range good {
		refuse("config store fails", edge{host: "r0.example"}, "GET", g, nil)
	}
	configstore.VerifFail(nil)
	// a backend that does not exist
	p.hosts["nobackend.example"] = "nowhere"
	p.publish()
	for _, g := range good {
		refuse("backend does not exist", edge{host: "nobackend.example"}, "GET", g, nil)
	}
	// the host map is changed while everything is cached
	for k := 0; k < t.N(60, 400); k++ {
		if rng.Intn(3) == 0 {
			p.mu.Lock()
			p.hosts["r0.example"], p.hosts["r1.example"] = p.hosts["r1.example"], p.hosts["r0.example"]
			p.publish()
			p.mu.Unlock()
		}
		h := rng.Intn(2)
		w := p.backends[p.hosts[fmt.Sprintf("r%d.example", h)]].w
		m := &MonClient{H: edge{host: fmt.Sprintf("r%d.example", h)}, Edge: true}
		i := uint64(rng.Intn(300))
		var err error
		switch rng.Intn(4) {
		case 0:
			err = m.CheckEntries(w, i, i+uint64(rng.Intn(40)), 300)
		case 1:
			err = m.CheckEntryAndProof(w, i, 300)
		case 2:
			err = m.CheckProofByHash(w, i, 300)
		case 3:
			err = m.CheckConsistency(w, i, 300)
		}
		if err != nil {
			t.ViolateW("edge-mixes-hosts", p.log, "host map changed with a warm cache: %v", err)
			break
		}
		t.Eval("host map changes")
	}
}

// c20growing: concurrent requests through one cache while the log grows; what is cached may be old but never wrong, and
// not older than its lifetime.
func c20growing(t *T) {
	for k := 0; k < t.N(5, 20) && !t.Failed(); k++ {
		rng := t.Rand(fmt.Sprint("growing", k))
		p := NewPOP()
		w := NewWorld(WorldOpt{FlushMs: 8})
		if k%2 == 1 {
			w.Prefill(rng, 230)
		}
		b := p.Host("g.example", "gstore", w)
		age := []string{"max-age=5", "public, s-maxage=1, max-age=5, immutable", "", "no-transform , max-age=5", "public, max-age=0, must-revalidate"}[k%5]
		b.cacheControl = func(key string) string {
			if strings.HasPrefix(key, "tile/") || strings.HasPrefix(key, "issuer/") {
				return "public, max-age=604800, immutable"
			}
			return age
		}
		in, err := w.Boot()
		if err != nil {
			t.Inconclusive("boot: %v", err)
			return
		}
		m := &MonClient{H: edge{host: "g.example"}, Edge: true}
		var stop atomic.Bool
		var wg sync.WaitGroup
		for c := 0; c < 6; c++ {
			crng := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !stop.Load() {
					n := w.Aud.Size()
					if n == 0 {
						time.Sleep(2 * time.Millisecond)
						continue
					}
					i := uint64(crng.Int63n(int64(n)))
					s := i + 1 + uint64(crng.Int63n(int64(n-i)))
					lh := w.Aud.LeafHash(i)
					end := i + uint64(crng.Intn(90))
					var r *Resp
					var err error
					var kind string
					switch crng.Intn(4) {
					case 0:
						r = m.get(fmt.Sprintf("/ct/v1/get-sth-consistency?first=%d&second=%d", i, s))
						if kind = "consistency"; r.Code == 200 {
							err = m.judgeConsistency(w, i, s, r)
						}
					case 1:
						r = m.get(fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", esc(lh[:]), s))
						if kind = "proof by hash"; r.Code == 200 {
							err = m.judgeProofByHash(w, lh, s, r)
						}
					case 2:
						r = m.get(fmt.Sprintf("/ct/v1/get-entry-and-proof?leaf_index=%d&tree_size=%d", i, s))
						if kind = "entry and proof"; r.Code == 200 {
							err = m.judgeEntryAndProof(w, i, s, r)
						}
					case 3:
						r = m.get(fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", i, end))
						if kind = "entries"; r.Code == 200 {
							if _, err = m.judgeEntries(w, i, end, r); err == errAtLimit {
								t.Count("empty answers because of the request limit", 1)
								err = nil
							}
						}
					}
					if r.Panic != "" || r.Hung || (r.Code != 200 && r.Code < 400) {
						err = fmt.Errorf("%v\n%s", r, r.Stack)
					}
					if err != nil {
						t.Violate("edge-growing:"+kind, "%s of %d in %d while the log grows: %v", kind, i, s, err)
						return
					}
					res := "ok"
					if r.Code != 200 {
						res = "error"
					}
					t.Eval("growing/" + kind + "/" + res + "/" + sizeClass(n))
				}
			}()
		}
		mon, _ := w.Monitor()
		for burst := 0; burst < t.N(7, 15); burst++ {
			var bw sync.WaitGroup
			for c := 0; c < 2+rng.Intn(60); c++ {
				s := w.PKI.Random(rng)
				w.Aud.Register(s)
				bw.Add(1)
				go func() {
					defer bw.Done()
					in.Submit(s)
				}()
			}
			bw.Wait()
			// everything that was cached has expired: the edge now knows what the server knows
			d := 6 * time.Second
			if age == "" {
				d = 25 * time.Hour
			} else if strings.Contains(age, "max-age=0") {
				d = 0 // such an object is never fresh
			}
			simple.VerifPOP.Advance(d)
			n := w.Aud.Size()
			for q := 0; q < 12 && n > 0; q++ {
				i := uint64(rng.Int63n(int64(n)))
				if q < 3 {
					i = n - 1
				}
				var err error
				var kind string
				switch q % 3 {
				case 0:
					kind, err = "entry and proof", m.CheckEntryAndProof(w, i, n)
				case 1:
					kind, err = "entries", m.CheckEntries(w, i, i, n)
				case 2:
					kind, err = "consistency", m.CheckConsistency(w, i, n)
				}
				if err != nil {
					rs := call(mon, "GET", "/ct/v1/get-sth", nil, 0)
					t.ViolateW("edge-stale:"+kind, p.log, "all cached objects are older than their max-age; %s of %d in the published size %d: %v (server's head %v)", kind, i, n, err, rs)
				}
				t.Eval("cache expired/" + kind)
			}
		}
		stop.Store(true)
		wg.Wait()
		in.Quiesce()
		t.Drain(map[string]bool{}, w)
		w.Close()
		t.Count("backend requests", p.ops)
	}
}

// c20longChains: entries with more issuers than the edge may fetch for one answer still come through, as issuers get cached.
func c20longChains(t *T) {
	rng := t.Rand("chains")
	for k := 0; k < t.N(6, 30) && !t.Failed(); k++ {
		p := NewPOP()
		w := NewWorld(WorldOpt{Issuers: []int{30, 200, 1000}[k%3], Chain: 10})
		n := []uint64{40, 256, 600}[k%3]
		w.Prefill(rng, n)
		p.Host("l.example", "lstore", w)
		m := &MonClient{H: edge{host: "l.example"}, Edge: true}
		mon, _ := w.Monitor()
		empty := 0
		for i := uint64(0); i < n; {
			target := fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", i, i+uint64(rng.Intn(80)))
			before := p.ops
			re := m.get(target)
			if err := sameAnswer(target, call(mon, "GET", target, nil, 0), re, true); err != nil {
				t.ViolateW("edge-differs:get-entries", p.log, "long chains, %s: %v", target, err)
				break
			}
			var e entriesAnswer
			json.Unmarshal(re.Body, &e)
			if len(e.Entries) == 0 {
				if empty++; empty > 5 {
					t.ViolateW("edge-stuck", p.log, "%s: no entries in %d attempts", target, empty)
					break
				}
				t.Count("empty answers because of the request limit", 1)
			} else {
				empty = 0
			}
			i += uint64(len(e.Entries))
			t.Eval(fmt.Sprintf("long chains/requests %d/entries>0=%v", p.ops-before, len(e.Entries) > 0))
			if rng.Intn(10) == 0 {
				simple.VerifPOP.Reset()
				empty = 0
			}
			// the proof endpoints have no limit on their entry's chain
			j := uint64(rng.Int63n(int64(n)))
			if err := m.CheckEntryAndProof(w, j, n); err != nil {
				t.ViolateW("edge-wrong:get-entry-and-proof", p.log, "long chain, entry %d of %d: %v", j, n, err)
				break
			}
		}
		w.Close()
	}
}

// c20stepped: one POP, never emptied, follows logs through chosen sizes, so that every width of a tile and the full
// tile that takes its place have been asked for before.
func c20stepped(t *T) {
	rng := t.Rand("stepped")
	for k := 0; k < t.N(12, 60) && !t.Failed(); k++ {
		p := NewPOP()
		type site struct {
			w *World
			m *MonClient
			s http.Handler
		}
		var sites []site
		full := []uint64{520, 1030, 65800}[k%3]
		for i := 0; i < 2; i++ {
			w := NewWorld(WorldOpt{Issuers: 3})
			w.Prefill(rng, full)
			b := p.Host(fmt.Sprintf("s%d.example", i), fmt.Sprintf("sstore%d", i), w)
			b.cacheControl = func(key string) string {
				if strings.HasPrefix(key, "tile/") || strings.HasPrefix(key, "issuer/") {
					return "public, max-age=604800, immutable"
				}
				return "max-age=5"
			}
			mon, _ := w.Monitor()
			sites = append(sites, site{w, &MonClient{H: edge{host: fmt.Sprintf("s%d.example", i)}, Edge: true}, mon})
		}
		base := sites[0].w.Aud.base
		var sizes []uint64
		for _, at := range []uint64{base, base + 256, base + 512, 65536} {
			for _, d := range []int64{1, 2, 3, 10, 11, 25, 26, 99, 100, 255} {
				n := at + uint64(d)
				if rng.Intn(3) > 0 && d > 2 && d < 255 {
					continue
				}
				if n > base && n <= full {
					sizes = append(sizes, n)
				}
			}
			if at > base && at <= full {
				sizes = append(sizes, at)
			}
		}
		sizes = append(sizes, full)
		slices.Sort(sizes)
		sizes = slices.Compact(sizes)
		for _, s := range sites {
			s.w.publishedSizes(sizes)
		}
		for _, n := range sizes {
			simple.VerifPOP.Advance(time.Minute)
			for _, s := range sites {
				s.w.put("ct/v1/get-sth", makeSTH(s.w.Key, Head{n, s.w.Aud.sth.TS, s.w.Aud.Root(n)}))
			}
			for q := 0; q < 16; q++ {
				s := sites[rng.Intn(len(sites))]
				i := base + uint64(rng.Int63n(int64(n-base)))
				switch {
				case q < 4:
					i = n - 1
				case q < 8:
					if i = (n - 1) / 256 * 256; i >= base+256 && rng.Intn(2) == 0 {
						i -= 256
					}
				}
				var err error
				var kind string
				switch q % 4 {
				case 0:
					kind, err = "entry and proof", s.m.CheckEntryAndProof(s.w, i, n)
				case 1:
					kind, err = "entries", s.m.CheckEntries(s.w, i, min(n-1, i+uint64(rng.Intn(300))), n)
				case 2:
					if i > base {
						kind, err = "consistency", s.m.CheckConsistency(s.w, i, n)
					}
				case 3:
					kind, err = "proof by hash", s.m.CheckProofByHash(s.w, i, n)
				}
				if err == errAtLimit {
					t.Count("empty answers because of the request limit", 1)
					err = nil
				}
				if err != nil {
					t.ViolateW("edge-stepped:"+kind, p.tail(), "after sizes %v, at size %d, %s of %d: %v", sizes, n, kind, i, err)
					break
				}
				t.Eval("stepped/" + kind + "/" + sizeClass(n))
			}
		}
		for _, s := range sites {
			s.w.Close()
		}
	}
}
